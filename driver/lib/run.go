package lib

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	jsval "github.com/lestrrat-go/jsval"
)

// Event is one step of a behaviour; the results are added to the raw form.
type Event struct {
	E    string `json:"e"`
	C    *C     `json:"c"`
	V    *V     `json:"v"`
	O    int    `json:"o"`
	Call *Call  `json:"call"`
	N    []rune `json:"n"`
	Map  int    `json:"map"`
	Via  string `json:"via"`

	Twice bool     `json:"twice"`
	Ask   [][]rune `json:"ask"`
}

// Ref is one registration in the reference map.
type Ref struct {
	N   []rune `json:"n"`
	C   C      `json:"c"`
	Map int    `json:"map"`
}

// Beh is a behaviour: objects, registrations, steps.
type Beh struct {
	ID   int               `json:"id"`
	Sh   int               `json:"sh"`
	Heap []C               `json:"heap"`
	Refs []Ref             `json:"refs"`
	NMap int               `json:"nmap"`
	Slow bool              `json:"slow"`
	Clob bool              `json:"clob"`
	Ev   []json.RawMessage `json:"ev"`
}

// Timeout is how long one step may take before it counts as hanging.
var Timeout = 30 * time.Second

var hung int32

// Hung tells whether some step did not return.
func Hung() bool { return atomic.LoadInt32(&hung) != 0 }

// Guard runs f and reports a panic of the code under test ("panic"), a
// driver error (returned as error) or a hang.
func Guard(f func()) (outcome string, detail string) {
	type res struct{ o, d string }
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprint(r)
				if strings.HasPrefix(s, "driver: ") {
					ch <- res{"driver", s}
					return
				}
				ch <- res{"panic", s + "\n" + string(debug.Stack())}
			}
		}()
		f()
		ch <- res{"", ""}
	}()
	select {
	case r := <-ch:
		return r.o, r.d
	case <-time.After(Timeout):
		atomic.StoreInt32(&hung, 1)
		return "hang", "no result after " + Timeout.String()
	}
}

// NewWorld allocates the objects of a behaviour.
func NewWorld(b *Beh) *World {
	w := &World{Ctx: Ctx{Sh: b.Sh}, Slow: b.Slow, Clob: b.Clob}
	n := b.NMap
	if n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		w.Maps = append(w.Maps, &jsval.ConstraintMap{})
	}
	w.Heap = make([]jsval.Constraint, len(b.Heap))
	// not and reduce need their child at creation: the heap lists them after it
	for i := range b.Heap {
		w.Heap[i] = w.alloc(&b.Heap[i])
	}
	for i := range b.Heap {
		for _, call := range b.Heap[i].Calls {
			w.Apply(w.Heap[i], call)
		}
	}
	for i := range b.Refs {
		w.SetRef(&b.Refs[i])
	}
	return w
}

// SetRef registers a constraint.
func (w *World) SetRef(r *Ref) {
	m := r.Map
	if m == 0 {
		m = 1
	}
	w.Maps[m-1].SetReference(Text(r.N), w.Cons(&r.C))
}

// Identify finds a constraint in the heap: its index, or -1.
func (w *World) Identify(c jsval.Constraint) int {
	if c == nil {
		return 0
	}
	for i, h := range w.Heap {
		if h == c {
			return i + 1
		}
	}
	return -1
}

// RunBeh executes a behaviour and returns it with results filled in.
func RunBeh(raw []byte) ([]byte, error) {
	var b Beh
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, err
	}
	var whole map[string]json.RawMessage
	if err := json.Unmarshal(raw, &whole); err != nil {
		return nil, err
	}
	var out []interface{}
	var w *World
	if o, d := Guard(func() { w = NewWorld(&b) }); o != "" {
		if o == "driver" {
			return nil, fmt.Errorf("case %d: %s", b.ID, d)
		}
		out = append(out, M{"e": o, "detail": d})
	} else {
		for _, re := range b.Ev {
			var ev map[string]interface{}
			res, err := w.Step(re, &ev)
			if err != nil {
				return nil, fmt.Errorf("case %d: %s", b.ID, err)
			}
			out = append(out, res)
			if res["e"] == "panic" || res["e"] == "hang" {
				break
			}
		}
	}
	whole["ev"], _ = json.Marshal(out)
	return json.Marshal(whole)
}

// Step performs one event.
func (w *World) Step(raw json.RawMessage, ev *map[string]interface{}) (M, error) {
	var e Event
	if err := json.Unmarshal(raw, &e); err != nil {
		return nil, err
	}
	out := M{}
	if err := json.Unmarshal(raw, &out); err != nil {
		return nil, err
	}
	o, d := Guard(func() { w.step(&e, out) })
	if o == "driver" {
		return nil, fmt.Errorf("%s", d)
	}
	if o != "" {
		return M{"e": o, "detail": d, "was": out}, nil
	}
	return out, nil
}

func (w *World) step(e *Event, out M) {
	switch e.E {
	case "val":
		c := w.Cons(e.C)
		w.RecordVal(c.Validate, *e.V, out, e.Via)
	case "jval": // through a JSVal
		jv := jsval.New().SetConstraintMap(w.Maps[0]).SetName("x")
		jv.SetRoot(w.Cons(e.C))
		w.RecordVal(jv.Validate, *e.V, out, e.Via)
		out["e"] = "val"
	case "def":
		c := w.Cons(e.C)
		out["has"] = c.HasDefault()
		if c.HasDefault() {
			out["v"] = w.Encode(c.DefaultValue())
		} else if dv := c.DefaultValue(); dv != nil {
			out["has"] = true // a default value without HasDefault
			out["v"] = w.Encode(dv)
		}
	case "call":
		w.Apply(w.Heap[e.O-1], *e.Call)
	case "setref":
		w.SetRef(&Ref{N: e.N, C: *e.C, Map: e.Map})
	case "getref":
		c, err := w.Maps[e.Map-1].GetReference(Text(e.N))
		out["ok"] = err == nil
		out["r"] = 0
		if err == nil {
			out["r"] = w.Identify(c)
		} else if c != nil {
			out["r"] = w.Identify(c)
		}
	case "info": // the registry of struct information, used directly
		rv := reflect.ValueOf(w.Make(*e.V))
		_, had := w.Infos.Lookup(rv.Type())
		si := w.Infos.Register(rv.Type())
		if e.Twice {
			si, out["found"] = w.Infos.Lookup(rv.Type())
		} else {
			_, out["found"] = w.Infos.Lookup(rv.Type())
		}
		out["had"] = had
		names := []interface{}{}
		for _, n := range si.PropNames(rv) {
			names = append(names, cps(n))
		}
		out["has"] = names
		fields := []interface{}{}
		for _, n := range e.Ask {
			f, ok := si.FieldName(string(n))
			fields = append(fields, M{"n": cps(string(n)), "ok": ok, "go": cps(f)})
		}
		out["fields"] = fields
	case "len":
		out["r"] = w.Maps[e.Map-1].Len()
	case "resolved":
		c, err := w.Cons(e.C).(*jsval.ReferenceConstraint).Resolved()
		out["ok"] = err == nil
		out["r"] = 0
		if c != nil {
			out["r"] = w.Identify(c)
		}
	default:
		panic("driver: unknown event " + e.E)
	}
}

// RecordVal validates a fresh copy of v and records verdict and effect.
func (w *World) RecordVal(validate func(interface{}) error, v V, out M, via string) {
	x := w.Make(v)
	before := Canon(w.Encode(x))
	err := validate(x)
	after := w.Encode(x)
	out["ok"] = err == nil
	if Canon(after) != before {
		out["ch"] = true
		out["after"] = after
	} else {
		out["ch"] = false
	}
}
