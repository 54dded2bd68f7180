package lib

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"

	jsval "github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

type emitCase struct {
	Beh
	Names [][]rune `json:"names"`
	VMap  []int    `json:"vmap"`
	Text  string   `json:"text"`
	Vals  []V      `json:"vals"`
	Eev   []struct {
		E     string `json:"e"`
		Order []int  `json:"order"`
		Kind  string `json:"kind"`
		At    int    `json:"at"` // byte; negative: from the end
		O     int    `json:"o"`
		I     int    `json:"i"`
	} `json:"eev"`
}

// faulty is a writer that fails after some number of bytes.
type faulty struct {
	buf    bytes.Buffer
	left   int
	kind   string
	failed bool
}

func (f *faulty) Write(p []byte) (int, error) {
	t := len(p)
	if t > f.left {
		t = f.left
	}
	hit := false
	switch f.kind {
	case "err", "short":
		hit = t < len(p)
		f.buf.Write(p[:t])
	case "late":
		hit = f.left <= len(p)
		f.buf.Write(p)
	default:
		f.buf.Write(p)
	}
	f.left -= t
	if !hit {
		return len(p), nil
	}
	f.failed = true
	switch f.kind {
	case "short":
		return t, nil
	case "late":
		return len(p), errors.New("late failure")
	}
	return t, errors.New("no space left")
}

// topVars lists the variables that code declares, and how many have the type *X.JSVal.
func topVars(code string) ([]M, int) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package x\n"+code, 0)
	if err != nil {
		return []M{}, 0
	}
	n, typed := map[string]int{}, 0
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for _, id := range vs.Names {
				n[id.Name]++
			}
			if st, ok := vs.Type.(*ast.StarExpr); ok {
				if se, ok := st.X.(*ast.SelectorExpr); ok && se.Sel.Name == "JSVal" {
					typed += len(vs.Names)
				}
			}
		}
	}
	l := []string{}
	for k := range n {
		l = append(l, k)
	}
	sort.Strings(l)
	out := []M{}
	for _, k := range l {
		out = append(out, M{"n": []rune(k), "c": n[k]})
	}
	return out, typed
}

// RunEmit executes generations.
func RunEmit(raw []byte) ([]byte, error) {
	var c emitCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	var whole map[string]json.RawMessage
	json.Unmarshal(raw, &whole)
	delete(whole, "eev")
	out := []M{}
	var w *World
	var vs []*jsval.JSVal
	full := map[string]string{}
	finish := func() ([]byte, error) {
		whole["ev"], _ = json.Marshal(out)
		return json.Marshal(whole)
	}
	if o, d := Guard(func() {
		if c.Text != "" {
			s, doc, err := ReadDoc(c.Text)
			if err != nil {
				panic("driver: " + err.Error())
			}
			w = &World{Ctx: Ctx{Sh: c.Sh}}
			v, err := builder.New().BuildWithCtx(s, doc)
			if err != nil {
				return
			}
			vs = append(vs, v.SetName(string(c.Names[0])))
			return
		}
		w = NewWorld(&c.Beh)
		for i, h := range w.Heap {
			m := 1
			if len(c.VMap) > 0 {
				m = c.VMap[i]
			}
			v := jsval.New().SetConstraintMap(w.Maps[m-1]).SetRoot(h)
			if len(c.Names[i]) > 0 {
				v.SetName(string(c.Names[i]))
			}
			vs = append(vs, v)
		}
	}); o != "" {
		if o == "driver" {
			return nil, fmt.Errorf("case %d: %s", c.ID, d)
		}
		out = append(out, M{"e": o, "detail": d})
		return finish()
	}
	if vs == nil { // the document cannot be built
		return finish()
	}
	g := jsval.NewGenerator()
	for _, e := range c.Eev {
		res := M{"e": e.E}
		o, d := Guard(func() {
			pick := func() []*jsval.JSVal {
				l := make([]*jsval.JSVal, len(e.Order))
				for i, k := range e.Order {
					l[i] = vs[k-1]
				}
				return l
			}
			key := fmt.Sprint(e.Order)
			switch e.E {
			case "gen":
				res["order"] = e.Order
				var buf bytes.Buffer
				l := pick()
				given := append([]*jsval.JSVal{}, l...)
				err := g.Process(&buf, l...)
				for i := range l {
					if l[i] != given[i] {
						res["e"] = "reordered"
					}
				}
				if err != nil {
					res["sha"] = ""
					break
				}
				res["sha"] = fmt.Sprintf("%x", sha256.Sum256(buf.Bytes()))
				res["vars"], res["typed"] = topVars(buf.String())
				full[key] = buf.String()
			case "write":
				whole, ok := full[key]
				if !ok {
					var buf bytes.Buffer
					if err := g.Process(&buf, pick()...); err != nil {
						panic("driver: cannot generate: " + err.Error())
					}
					whole = buf.String()
					full[key] = whole
				}
				at := e.At
				if at < 0 {
					at += len(whole) + 2
				}
				f := &faulty{left: at, kind: e.Kind}
				err := g.Process(f, pick()...)
				res["kind"], res["at"], res["len"] = e.Kind, at, len(whole)
				res["ok"], res["failed"], res["complete"] = err == nil, f.failed, f.buf.String() == whole
			case "val":
				res["o"], res["i"] = e.O, e.I
				res["ok"] = vs[e.O-1].Validate(w.Make(c.Vals[e.I-1])) == nil
			case "names":
				l := [][]rune{}
				for _, v := range vs {
					l = append(l, []rune(v.Name))
				}
				res["names"] = l
			default:
				panic("driver: unknown event " + e.E)
			}
		})
		if o == "driver" {
			return nil, fmt.Errorf("case %d: %s", c.ID, d)
		}
		if o != "" {
			out = append(out, M{"e": o, "detail": d, "was": res})
			break
		}
		out = append(out, res)
	}
	return finish()
}
