package lib

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	jsval "github.com/lestrrat-go/jsval"
)

// barrier lets n goroutines start together.
type barrier struct {
	n    int32
	want int32
}

func (b *barrier) wait() {
	atomic.AddInt32(&b.n, 1)
	for i := 0; atomic.LoadInt32(&b.n) < b.want; i++ {
		if i > 1000 {
			runtime.Gosched()
		}
	}
}

var salt int64

// slow is a resolver that takes its time before and after the lookup.
type slow struct{ m *jsval.ConstraintMap }

func (s slow) GetReference(n string) (jsval.Constraint, error) {
	spin(someTime())
	c, err := s.m.GetReference(n)
	spin(someTime())
	return c, err
}

var ticket uint64

// someTime is usually short, sometimes long enough for others to overtake.
func someTime() time.Duration {
	x := atomic.AddUint64(&ticket, 1) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return []time.Duration{0, 0, 300, 1000, 3000, 10000}[x%6]
}

func spin(d time.Duration) {
	if d == 0 {
		return
	}
	for t := time.Now(); time.Since(t) < d; {
	}
}

// RunConcVal performs the validations of a behaviour from many goroutines,
// each on inputs of its own, and records every distinct result of each.
func RunConcVal(raw []byte) ([]byte, error) {
	var b struct {
		Beh
		Threads int `json:"threads"`
		Reps    int `json:"reps"`
	}
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, err
	}
	var whole map[string]json.RawMessage
	json.Unmarshal(raw, &whole)
	evs := make([]Event, len(b.Ev))
	for i, re := range b.Ev {
		if err := json.Unmarshal(re, &evs[i]); err != nil {
			return nil, err
		}
	}
	out := []M{}
	seen := map[string]bool{}
	var mu sync.Mutex
	rng := rand.New(rand.NewSource(int64(b.ID)))
	for rep := 0; rep < b.Reps; rep++ {
		var w *World
		if o, d := Guard(func() { w = NewWorld(&b.Beh) }); o != "" {
			if o == "driver" {
				return nil, fmt.Errorf("case %d: %s", b.ID, d)
			}
			out = append(out, M{"e": o, "detail": d})
			break
		}
		w.Salt = fmt.Sprint(atomic.AddInt64(&salt, 1))
		bar := &barrier{want: int32(b.Threads)}
		perms := make([][]int, b.Threads)
		for t := range perms {
			perms[t] = rng.Perm(len(evs))
			if rng.Intn(2) == 0 { // often everybody begins with the same
				perms[t] = perms[0]
			}
		}
		var failed M
		o, d := Guard(func() {
			var wg sync.WaitGroup
			for t := 0; t < b.Threads; t++ {
				wg.Add(1)
				go func(t int) {
					defer wg.Done()
					var cur M
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							s := fmt.Sprint(r)
							k := "panic"
							if strings.HasPrefix(s, "driver: ") {
								k = "driver"
							}
							failed = M{"e": k, "detail": s, "was": cur}
							mu.Unlock()
						}
					}()
					ctx := w.Ctx
					in := make([]interface{}, len(evs))
					before := make([]string, len(evs))
					errs := make([]error, len(evs))
					targets := make([]jsval.Constraint, len(evs))
					for i := range evs {
						in[i] = ctx.Make(*evs[i].V)
						before[i] = Canon(ctx.Encode(in[i]))
						targets[i] = w.Cons(evs[i].C)
					}
					bar.wait()
					for _, i := range perms[t] {
						errs[i] = targets[i].Validate(in[i])
					}
					for i := range evs {
						res := M{}
						json.Unmarshal(b.Ev[i], &res)
						res["ok"] = errs[i] == nil
						res["ch"] = false
						after := ctx.Encode(in[i])
						if Canon(after) != before[i] {
							res["ch"] = true
							res["after"] = after
						}
						k, _ := json.Marshal(M{"i": i, "r": res})
						mu.Lock()
						if !seen[string(k)] {
							seen[string(k)] = true
							out = append(out, res)
						}
						mu.Unlock()
					}
				}(t)
			}
			wg.Wait()
		})
		if failed != nil {
			if failed["e"] == "driver" {
				return nil, fmt.Errorf("case %d: %v", b.ID, failed["detail"])
			}
			out = append(out, failed)
			break
		}
		if o != "" {
			out = append(out, M{"e": o, "detail": d})
			break
		}
	}
	whole["ev"], _ = json.Marshal(out)
	return json.Marshal(whole)
}

// ConcOp is one operation of a concurrent history.
type ConcOp struct {
	F    string `json:"f"`
	Th   int    `json:"th"`
	N    []rune `json:"n"`
	C    int    `json:"c"`
	O    int    `json:"o"`
	V    *V     `json:"v"`
	Call *Call  `json:"call"`
}

// RunConcOps executes the threads of a case several times and records the
// distinct histories: what was called and returned in which order.
func RunConcOps(raw []byte) ([]byte, error) {
	var b struct {
		Beh
		Ops     []json.RawMessage `json:"ops"`
		Threads int               `json:"threads"`
		Reps    int               `json:"reps"`
		Keep    int               `json:"keep"`
	}
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, err
	}
	ops := make([]ConcOp, len(b.Ops))
	for i, r := range b.Ops {
		if err := json.Unmarshal(r, &ops[i]); err != nil {
			return nil, err
		}
	}
	type hist struct {
		Ops []M `json:"ops"`
		Ev  []M `json:"ev"`
	}
	hists := []hist{}
	sigs := map[string]bool{}
	const slack = 500 // ns: clocks of different cores
	for rep := 0; rep < b.Reps && len(hists) < b.Keep; rep++ {
		var w *World
		if o, d := Guard(func() { w = NewWorld(&b.Beh) }); o != "" {
			return nil, fmt.Errorf("case %d: %s", b.ID, d)
		}
		// everything that takes part is made beforehand
		calls := make([]func() M, len(ops))
		for i := range ops {
			calls[i] = w.concOp(&ops[i])
		}
		at := make([][2]int64, len(ops))
		res := make([]M, len(ops))
		bar := &barrier{want: int32(b.Threads)}
		var failed M
		var mu sync.Mutex
		base := time.Now()
		o, d := Guard(func() {
			var wg sync.WaitGroup
			for t := 1; t <= b.Threads; t++ {
				wg.Add(1)
				go func(t int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							failed = M{"e": "panic", "detail": fmt.Sprint(r)}
							mu.Unlock()
						}
					}()
					bar.wait()
					for i := range ops {
						if ops[i].Th != t {
							continue
						}
						if rep%2 == 1 {
							spin(someTime())
						}
						at[i][0] = int64(time.Since(base))
						res[i] = calls[i]()
						at[i][1] = int64(time.Since(base))
					}
				}(t)
			}
			wg.Wait()
		})
		if failed != nil && strings.HasPrefix(fmt.Sprint(failed["detail"]), "driver: ") {
			return nil, fmt.Errorf("case %d: %v", b.ID, failed["detail"])
		}
		h := hist{}
		if o != "" {
			failed = M{"e": o, "detail": d}
		}
		if failed != nil {
			h.Ev = append(h.Ev, failed)
			hists = append(hists, h)
			break
		}
		// order of events; what is too close to tell overlaps
		last := map[int]int{}
		for i := range ops {
			if p, ok := last[ops[i].Th]; ok {
				if e := at[p][1] + slack; e < at[i][0] {
					at[p][1] = e
				} else {
					at[p][1] = at[i][0]
				}
			}
			last[ops[i].Th] = i
		}
		for _, i := range last {
			at[i][1] += slack
		}
		type ev struct {
			t   int64
			ret int
			k   int
		}
		var evs []ev
		for i := range ops {
			evs = append(evs, ev{at[i][0], 0, i}, ev{at[i][1], 1, i})
		}
		sort.SliceStable(evs, func(x, y int) bool {
			a, b := evs[x], evs[y]
			if a.t != b.t {
				return a.t < b.t
			}
			// at the same time: the return before the next call of the same thread, else calls first
			if ops[a.k].Th == ops[b.k].Th {
				return a.k < b.k || a.k == b.k && a.ret < b.ret
			}
			return a.ret < b.ret
		})
		for i := range ops {
			m := M{}
			json.Unmarshal(b.Ops[i], &m)
			for k, v := range res[i] {
				m[k] = v
			}
			h.Ops = append(h.Ops, m)
		}
		for _, e := range evs {
			n := "call"
			if e.ret == 1 {
				n = "ret"
			}
			h.Ev = append(h.Ev, M{"e": n, "k": e.k + 1})
		}
		k, _ := json.Marshal(h)
		if sigs[string(k)] {
			continue
		}
		sigs[string(k)] = true
		hists = append(hists, h)
	}
	var whole map[string]json.RawMessage
	json.Unmarshal(raw, &whole)
	delete(whole, "ops")
	whole["hists"], _ = json.Marshal(hists)
	return json.Marshal(whole)
}

// concOp prepares an operation; running it returns the result.
func (w *World) concOp(op *ConcOp) func() M {
	switch op.F {
	case "setref":
		n, c := string(op.N), w.Heap[op.C-1]
		return func() M { w.Maps[0].SetReference(n, c); return nil }
	case "getref":
		n := string(op.N)
		return func() M {
			c, err := w.Maps[0].GetReference(n)
			if err != nil {
				return M{"r": 0}
			}
			return M{"r": w.Identify(c)}
		}
	case "len":
		return func() M { return M{"r": w.Maps[0].Len()} }
	case "resolved":
		r := w.Heap[op.O-1].(*jsval.ReferenceConstraint)
		return func() M {
			c, err := r.Resolved()
			if err != nil {
				return M{"r": 0}
			}
			return M{"r": w.Identify(c)}
		}
	case "vref", "vobj":
		c, x := w.Heap[op.O-1], w.Make(*op.V)
		return func() M { return M{"ok": c.Validate(x) == nil} }
	case "conf":
		o, call := w.Heap[op.O-1], *op.Call
		return func() M { w.Apply(o, call); return nil }
	case "isreq":
		o, n := w.Heap[op.O-1].(*jsval.ObjectConstraint), string(op.N)
		return func() M { return M{"ok": o.IsPropRequired(n)} }
	case "deps":
		o, n := w.Heap[op.O-1].(*jsval.ObjectConstraint), string(op.N)
		return func() M {
			l := [][]rune{}
			for _, x := range o.GetPropDependencies(n) {
				l = append(l, []rune(x))
			}
			return M{"ns": l}
		}
	case "sdep":
		o, n := w.Heap[op.O-1].(*jsval.ObjectConstraint), string(op.N)
		return func() M { return M{"r": w.Identify(o.GetSchemaDependency(n))} }
	}
	panic("driver: unknown operation " + op.F)
}
