package lib

import (
	"encoding/json"
	"fmt"
	"sync"

	schema "github.com/lestrrat-go/jsschema"
	jsval "github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

// buildsCase: several documents, several builders, a history of builds and
// validations. Every successful build makes a validator (numbered from 1).
type buildsCase struct {
	ID    int      `json:"id"`
	Sh    int      `json:"sh"`
	Texts []string `json:"texts"`
	NB    int      `json:"nb"`
	Ev    []M      `json:"ev"`
}

type readDoc struct {
	s      *schema.Schema
	m      map[string]interface{}
	before string
}

// TryRead reads a document; whatever the reader does is not our concern.
func TryRead(text string) (d *readDoc) {
	defer func() {
		if recover() != nil {
			d = nil
		}
	}()
	s, m, err := ReadDoc(text)
	if err != nil || s == nil || m == nil {
		return nil
	}
	return &readDoc{s, m, dump(s) + dump(m)}
}

// RunBuilds executes one history.
func RunBuilds(raw []byte) ([]byte, error) {
	var c buildsCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	var whole map[string]json.RawMessage
	json.Unmarshal(raw, &whole)
	w := &World{Ctx: Ctx{Sh: c.Sh}}
	var docs []*readDoc
	unread := 0
	for _, t := range c.Texts {
		d := TryRead(t)
		if d == nil { // not readable: nothing to decide
			if d = TryRead("{}"); d == nil {
				return nil, fmt.Errorf("cannot read {}")
			}
			unread++
		}
		docs = append(docs, d)
	}
	var bs []*builder.Builder
	for i := 0; i < c.NB; i++ {
		bs = append(bs, builder.New())
	}
	num := func(e M, k string) int { f, _ := e[k].(float64); return int(f) }
	var vs []*jsval.JSVal
	out := []M{}
	for _, e := range c.Ev {
		e := e
		skip := false
		o, d := Guard(func() {
			switch e["e"] {
			case "build":
				doc := docs[num(e, "d")-1]
				v, err := bs[num(e, "b")-1].BuildWithCtx(doc.s, doc.m)
				e["ok"] = err == nil
				if err == nil {
					if v == nil {
						e["e"] = "nothing"
						return
					}
					vs = append(vs, v)
				} else if v != nil {
					e["e"] = "both"
				}
			case "val":
				k := num(e, "k")
				if k > len(vs) {
					skip = true
					return
				}
				var v V
				b, _ := json.Marshal(e["v"])
				if err := json.Unmarshal(b, &v); err != nil {
					panic("driver: " + err.Error())
				}
				w.RecordVal(vs[k-1].Validate, v, e, "")
			case "intact":
				ok := true
				for _, doc := range docs {
					ok = ok && dump(doc.s)+dump(doc.m) == doc.before
				}
				e["ok"] = ok
			case "together": // the same builds, concurrently: only their outcomes are recorded
				var wg sync.WaitGroup
				oks := make([]interface{}, len(docs))
				for i, doc := range docs {
					wg.Add(1)
					go func(i int, doc *readDoc) {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								oks[i] = fmt.Sprint("panic: ", r)
							}
						}()
						_, err := bs[0].BuildWithCtx(doc.s, doc.m)
						oks[i] = err == nil
					}(i, doc)
				}
				wg.Wait()
				for _, x := range oks {
					if s, ok := x.(string); ok {
						e["e"] = "panic"
						e["detail"] = s
					}
				}
				e["oks"] = oks
			default:
				panic(fmt.Sprint("driver: unknown event ", e["e"]))
			}
		})
		if o == "driver" {
			return nil, fmt.Errorf("case %d: %s", c.ID, d)
		}
		if o != "" {
			out = append(out, M{"e": o, "detail": d, "was": e})
			break
		}
		if e["e"] == "panic" {
			delete(e, "oks")
			out = append(out, e)
			break
		}
		if !skip {
			out = append(out, e)
		}
	}
	whole["ev"], _ = json.Marshal(out)
	whole["detail"], _ = json.Marshal(unread)
	return json.Marshal(whole)
}
