package lib

import (
	"errors"
	"reflect"
	"sort"
	"unsafe"

	jsval "github.com/lestrrat-go/jsval"
)

// Hook describes what the property methods of a struct do.
type Hook struct {
	HN    bool      `json:"hn"`
	HV    bool      `json:"hv"`
	HS    bool      `json:"hs"`
	NErr  bool      `json:"nerr"`
	SErr  bool      `json:"serr"`
	Names [][]rune  `json:"pns"`
	Vals  []HookVal `json:"vals"`
}

// HookVal is a property that GetPropValue knows.
type HookVal struct {
	N []rune `json:"n"`
	F Fld    `json:"f"`
}

type hookData struct {
	names      []string
	nerr, serr bool
	both       bool // names and values come from methods
	vals       map[string]interface{}
}

func (h *hookData) getNames() ([]string, error) {
	if h.nerr {
		return []string{"never", "used"}, errors.New("no names")
	}
	return append([]string{}, h.names...), nil
}

func (h *hookData) get(n string) (interface{}, error) {
	x, ok := h.vals[n]
	if !ok {
		return "not to be used", errors.New("no such property")
	}
	return x, nil
}

func (h *hookData) set(n string, x interface{}) error {
	if h.serr {
		return errors.New("cannot set")
	}
	if h.both {
		known := false
		for _, x := range h.names {
			known = known || x == n
		}
		if !known {
			h.names = append(h.names, n)
		}
	}
	h.vals[n] = x
	return nil
}

type hookPart struct {
	A interface{}       `json:"a"`
	B jsval.MaybeString `json:"b"`
	C *jsval.MaybeInt   `json:"c"`
	h *hookData
}

type (
	hN   hookPart
	hV   hookPart
	hS   hookPart
	hNV  hookPart
	hNS  hookPart
	hVS  hookPart
	hNVS hookPart
)

func (x hN) GetPropNames() ([]string, error)              { return x.h.getNames() }
func (x hNV) GetPropNames() ([]string, error)             { return x.h.getNames() }
func (x hNS) GetPropNames() ([]string, error)             { return x.h.getNames() }
func (x hNVS) GetPropNames() ([]string, error)            { return x.h.getNames() }
func (x hV) GetPropValue(n string) (interface{}, error)   { return x.h.get(n) }
func (x hNV) GetPropValue(n string) (interface{}, error)  { return x.h.get(n) }
func (x hVS) GetPropValue(n string) (interface{}, error)  { return x.h.get(n) }
func (x hNVS) GetPropValue(n string) (interface{}, error) { return x.h.get(n) }
func (x hS) SetPropValue(n string, v interface{}) error   { return x.h.set(n, v) }
func (x hNS) SetPropValue(n string, v interface{}) error  { return x.h.set(n, v) }
func (x hVS) SetPropValue(n string, v interface{}) error  { return x.h.set(n, v) }
func (x hNVS) SetPropValue(n string, v interface{}) error { return x.h.set(n, v) }

var hookTypes = map[[3]bool]reflect.Type{
	{false, false, false}: reflect.TypeOf(hookPart{}),
	{true, false, false}:  reflect.TypeOf(hN{}),
	{false, true, false}:  reflect.TypeOf(hV{}),
	{false, false, true}:  reflect.TypeOf(hS{}),
	{true, true, false}:   reflect.TypeOf(hNV{}),
	{true, false, true}:   reflect.TypeOf(hNS{}),
	{false, true, true}:   reflect.TypeOf(hVS{}),
	{true, true, true}:    reflect.TypeOf(hNVS{}),
}

func (c *Ctx) buildHook(v V) reflect.Value {
	d := &hookData{nerr: v.NErr, serr: v.SErr, both: v.HN && v.HV, vals: map[string]interface{}{}}
	for _, n := range v.Names {
		d.names = append(d.names, string(n))
	}
	for _, x := range v.Vals {
		s := reflect.New(c.structType([]Fld{x.F}))
		c.fillStruct(s.Elem(), []Fld{x.F})
		d.vals[string(x.N)] = s.Elem().Field(0).Interface()
	}
	p := reflect.New(hookTypes[[3]bool{v.HN, v.HV, v.HS}])
	if len(v.F) != 3 {
		panic("driver: a hook has three fields")
	}
	c.fillStruct(p.Elem(), v.F)
	(*hookPart)(unsafe.Pointer(p.Pointer())).h = d
	return p
}

func hookOf(v reflect.Value) (*hookData, bool) {
	for _, t := range hookTypes {
		if v.Type() == t {
			f := v.FieldByName("h")
			return (*hookData)(unsafe.Pointer(f.Pointer())), true
		}
	}
	return nil, false
}

func (c *Ctx) encHook(v reflect.Value, h *hookData) interface{} {
	fs, vals := []interface{}{}, []interface{}{}
	for i := 0; i < 3; i++ {
		fs = append(fs, c.encField(v.Type().Field(i), v.Field(i)))
	}
	l := []string{}
	for n := range h.vals {
		l = append(l, n)
	}
	sort.Strings(l)
	for _, n := range l {
		x := reflect.ValueOf(h.vals[n])
		if !x.IsValid() {
			vals = append(vals, M{"n": cps(n), "f": M{"maybe": false, "valid": false, "mk": "", "v": M{"t": "nil"}}})
			continue
		}
		vals = append(vals, M{"n": cps(n), "f": c.encField(reflect.StructField{Name: "X", Type: x.Type()}, x)})
	}
	return M{"t": "hook", "f": fs, "vals": vals}
}

// Declared struct types, several of the same name.
var declared = map[string]reflect.Type{}

func init() {
	add := func(n string, x interface{}) { declared[n] = reflect.TypeOf(x) }
	{
		type T struct {
			A jsval.MaybeString `json:"a"`
			B jsval.MaybeInt    `json:"b"`
		}
		add("1", T{})
	}
	{
		type T struct {
			A jsval.MaybeString `json:"b"`
			B jsval.MaybeInt    `json:"a"`
		}
		add("2", T{})
	}
	{
		type T struct {
			B jsval.MaybeInt    `json:"b,omitempty"`
			A jsval.MaybeString `json:"a"`
			C interface{}       `json:"c"`
		}
		add("3", T{})
	}
	{
		type T struct {
			A interface{}      `json:"a"`
			B jsval.MaybeFloat `json:"c"`
		}
		add("4", T{})
	}
	{
		type T struct {
			A jsval.MaybeBool  `json:"-"`
			B *jsval.MaybeUint `json:"b"`
			C interface{}
		}
		add("5", T{})
	}
	{
		type T struct {
			A *jsval.MaybeString `json:"a"`
			B jsval.MaybeInt
		}
		add("6", T{})
	}
}
