package lib

import (
	"encoding/json"
	"fmt"
)

type totalEvent struct {
	E   string `json:"e"`
	C   int    `json:"c"` // object of the heap
	I   int    `json:"i"` // value
	O   int    `json:"o"`
	N   int    `json:"n"` // configuration call
	Via string `json:"via"`
}

// RunTotal offers values of every kind to the objects of the heap.
func RunTotal(raw []byte) ([]byte, error) {
	var b struct {
		Beh
		Vals  []V          `json:"vals"`
		Calls []Call       `json:"calls"`
		Tev   []totalEvent `json:"tev"`
	}
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, err
	}
	var whole map[string]json.RawMessage
	json.Unmarshal(raw, &whole)
	delete(whole, "tev")
	out := []M{}
	var w *World
	finish := func() ([]byte, error) {
		whole["ev"], _ = json.Marshal(out)
		return json.Marshal(whole)
	}
	if o, d := Guard(func() { w = NewWorld(&b.Beh) }); o != "" {
		if o == "driver" {
			return nil, fmt.Errorf("case %d: %s", b.ID, d)
		}
		out = append(out, M{"e": o, "detail": d})
		return finish()
	}
	for _, e := range b.Tev {
		res := M{"e": e.E}
		o, d := Guard(func() {
			switch e.E {
			case "try":
				res["c"], res["i"] = e.C, e.I
				x := w.Make(b.Vals[e.I-1])
				before := dump(x)
				f := w.Heap[e.C-1].Validate
				if e.Via == "jsval" {
					f = newJSVal(w, w.Heap[e.C-1]).Validate
				}
				err := f(x)
				res["ok"] = err == nil
				if err != nil {
					_ = err.Error()
				}
				res["ch"] = dump(x) != before
			case "def":
				res["c"] = e.C
				res["has"] = w.Heap[e.C-1].HasDefault()
				_ = w.Heap[e.C-1].DefaultValue()
			case "call":
				res["o"], res["n"] = e.O, e.N
				w.Apply(w.Heap[e.O-1], b.Calls[e.N-1])
			default:
				panic("driver: unknown event " + e.E)
			}
		})
		if o == "driver" {
			return nil, fmt.Errorf("case %d: %s", b.ID, d)
		}
		if o != "" {
			out = append(out, M{"e": o, "detail": d, "was": res})
			break
		}
		out = append(out, res)
	}
	return finish()
}
