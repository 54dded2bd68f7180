package lib

import (
	"bytes"
	"encoding/json"
	"fmt"

	jsval "github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

// Gen holds the validators of compiled generated code: by case, by name.
var Gen = map[int]func() map[string]*jsval.JSVal{}

type genCase struct {
	Beh
	Names []string  `json:"names"`
	Text  string    `json:"text"`
	Order []int     `json:"order"`
	Parts []genCase `json:"parts"` // cases whose validators are generated together
	Gen   int       `json:"gen"`   // the case whose code has the validators, if not this one
}

// validators makes the original validators of a case: from a document, or
// one for each object of the heap.
func (c *genCase) validators() ([]*jsval.JSVal, error) {
	if len(c.Parts) > 0 {
		var l []*jsval.JSVal
		for i := range c.Parts {
			vs, err := c.Parts[i].validators()
			if err != nil {
				return nil, err
			}
			l = append(l, vs...)
		}
		return l, nil
	}
	if c.Text != "" {
		s, doc, err := ReadDoc(c.Text)
		if err != nil {
			panic("driver: " + err.Error())
		}
		v, err := builder.New().BuildWithCtx(s, doc)
		if err != nil {
			return nil, err
		}
		v.SetName(c.Names[0])
		return []*jsval.JSVal{v}, nil
	}
	w := NewWorld(&c.Beh)
	var l []*jsval.JSVal
	for i, h := range w.Heap {
		l = append(l, jsval.New().SetConstraintMap(w.Maps[0]).SetName(c.Names[i]).SetRoot(h))
	}
	return l, nil
}

// RunGen generates the code of a case.
func RunGen(raw []byte) ([]byte, error) {
	var c genCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	res := M{"id": c.ID, "code": "", "fail": "", "built": true}
	o, d := Guard(func() {
		l, err := c.validators()
		if err != nil {
			res["built"] = false
			return
		}
		var buf bytes.Buffer
		if err := jsval.NewGenerator().Process(&buf, l...); err != nil {
			res["fail"] = "generror"
			res["detail"] = err.Error()
			return
		}
		res["code"] = buf.String()
	})
	if o == "driver" {
		return nil, fmt.Errorf("case %d: %s", c.ID, d)
	}
	if o != "" {
		res["fail"], res["detail"] = o, d
	}
	return json.Marshal(res)
}

// RunRegen executes a case on the validators that its generated code made.
func RunRegen(raw []byte) ([]byte, error) {
	var c genCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	var whole map[string]json.RawMessage
	json.Unmarshal(raw, &whole)
	w := &World{Ctx: Ctx{Sh: c.Sh}}
	if c.Gen != 0 {
		c.ID = c.Gen
	}
	vs := Gen[c.ID]()
	out := []M{}
	for _, re := range c.Ev {
		var e Event
		res := M{}
		if err := json.Unmarshal(re, &e); err != nil {
			return nil, err
		}
		json.Unmarshal(re, &res)
		o, d := Guard(func() {
			target := func() jsval.Constraint {
				if c.Text != "" {
					return vs[c.Names[0]].Root()
				}
				if e.C.K == "ref" {
					t, err := vs[c.Names[e.O-1]].GetReference(string(e.C.Calls[0].Name))
					if err != nil {
						return unresolved{err}
					}
					return t
				}
				return vs[c.Names[*e.C.ID-1]].Root()
			}
			switch e.E {
			case "build":
				res["ok"] = true
			case "val":
				w.RecordVal(target().Validate, *e.V, res, "")
			case "def":
				t := target()
				res["has"] = t.HasDefault()
				if t.HasDefault() {
					res["v"] = w.Encode(t.DefaultValue())
				}
			default:
				panic("driver: unknown event " + e.E)
			}
		})
		if o == "driver" {
			return nil, fmt.Errorf("case %d: %s", c.ID, d)
		}
		if o != "" {
			out = append(out, M{"e": o, "detail": d, "was": res})
			break
		}
		out = append(out, res)
	}
	whole["ev"], _ = json.Marshal(out)
	return json.Marshal(whole)
}

type unresolved struct{ error }

func (u unresolved) Validate(interface{}) error { return u.error }
func (u unresolved) HasDefault() bool           { return false }
func (u unresolved) DefaultValue() interface{}  { return nil }
