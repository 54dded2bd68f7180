// Package lib executes cases of the specification on the real library and
// records what happened, in the encoding that the TLA+ modules use.
package lib

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"time"
	"unicode/utf8"
	"unsafe"

	jsval "github.com/lestrrat-go/jsval"
)

// V is a Go value in the encoding of JVal.tla.
type V struct {
	T  string `json:"t"`
	B  bool   `json:"b"`
	G  string `json:"g"`
	Q  int64  `json:"q"`
	S  []rune `json:"s"`
	E  []V    `json:"e"`
	P  []Pair `json:"p"`
	F  []Fld  `json:"f"`
	To *V     `json:"to"`
	Nm bool   `json:"nm"` // use a named Go type
	Ty string `json:"ty"` // a declared struct type
	Hook
	X string `json:"x"` // literal text of a number the model does not look at
}

// Pair is a property of an object.
type Pair struct {
	N []rune `json:"n"`
	V V      `json:"v"`
}

// Fld is a field of a struct.
type Fld struct {
	Go    []rune `json:"go"`
	Tag   []rune `json:"tag"`
	Exp   bool   `json:"exp"`
	Emb   bool   `json:"emb"`
	Maybe bool   `json:"maybe"`
	Valid bool   `json:"valid"`
	Mk    string `json:"mk"`
	Ptr   bool   `json:"ptr"` // pointer to a Maybe or pointer to an embedded struct
	NilP  bool   `json:"nilp"`
	Any   bool   `json:"any"` // declared as interface{}
	Ifc   bool   `json:"ifc"` // declared as jsval.Maybe
	V     V      `json:"v"`
}

type (
	namedString string
	namedBool   bool
	namedInt    int
	namedF64    float64
	namedMap    map[string]interface{}
	namedSlice  []interface{}
)

// Ctx carries the unit of numbers: 2^Sh.
type Ctx struct {
	Salt string
	Sh   int
}

func (c *Ctx) float(q int64) float64 { return math.Ldexp(float64(q), c.Sh) }

func (c *Ctx) unit(f float64) (int64, bool) {
	x := math.Ldexp(f, -c.Sh)
	if x != math.Trunc(x) || math.Abs(x) > 1<<31 {
		return 0, false
	}
	return int64(x), true
}

var numKinds = map[string]reflect.Type{
	"int": reflect.TypeOf(int(0)), "i8": reflect.TypeOf(int8(0)), "i16": reflect.TypeOf(int16(0)),
	"i32": reflect.TypeOf(int32(0)), "i64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "u8": reflect.TypeOf(uint8(0)), "u16": reflect.TypeOf(uint16(0)),
	"u32": reflect.TypeOf(uint32(0)), "u64": reflect.TypeOf(uint64(0)), "uptr": reflect.TypeOf(uintptr(0)),
	"f32": reflect.TypeOf(float32(0)), "f64": reflect.TypeOf(float64(0)),
}
var kindNames = map[reflect.Kind]string{}

func init() {
	for n, t := range numKinds {
		kindNames[t.Kind()] = n
	}
}

var anyT = reflect.TypeOf((*interface{})(nil)).Elem()

// Make is Build, with its failures marked as the driver's.
func (c *Ctx) Make(v V) interface{} {
	defer func() {
		if r := recover(); r != nil {
			panic("driver: cannot build the value: " + fmt.Sprint(r))
		}
	}()
	return c.Build(v)
}

// Build makes the Go value.
func (c *Ctx) Build(v V) interface{} {
	switch v.T {
	case "nil":
		return nil
	case "bool":
		if v.Nm {
			return namedBool(v.B)
		}
		return v.B
	case "num":
		f := c.float(v.Q)
		if v.Nm {
			switch v.G {
			case "int":
				return namedInt(int(f))
			case "f64":
				return namedF64(f)
			}
		}
		t := numKinds[v.G]
		if t == nil {
			panic("driver: unknown numeric kind " + v.G)
		}
		r := reflect.ValueOf(f).Convert(t)
		if back := toF(r); back != f {
			panic(fmt.Sprintf("driver: %v does not fit %s", f, v.G))
		}
		return r.Interface()
	case "str":
		if v.Nm {
			return namedString(Text(v.S))
		}
		return Text(v.S)
	case "time":
		t, err := time.Parse(time.RFC3339, string(v.S))
		if err != nil {
			panic("driver: " + err.Error())
		}
		return t
	case "arr":
		return c.buildSlice(v)
	case "obj":
		return c.buildMap(v)
	case "struct":
		return c.buildStruct(v).Elem().Interface()
	case "hook":
		return c.buildHook(v).Elem().Interface()
	case "ptr":
		to := *v.To
		if to.T == "struct" {
			return c.buildStruct(to).Interface()
		}
		if to.T == "hook" {
			return c.buildHook(to).Interface()
		}
		x := c.Build(to)
		p := reflect.New(reflect.TypeOf(x))
		p.Elem().Set(reflect.ValueOf(x))
		return p.Interface()
	case "nilof":
		switch v.G {
		case "ptr":
			switch v.X {
			case "struct":
				return (*struct{ A string })(nil)
			case "map":
				return (*map[string]interface{})(nil)
			case "num":
				return (*float64)(nil)
			}
			return (*string)(nil)
		case "map":
			return (map[string]interface{})(nil)
		case "slice":
			return ([]interface{})(nil)
		case "chan":
			return (chan int)(nil)
		case "func":
			return (func())(nil)
		}
	case "other":
		return c.buildOther(v.G)
	case "wild":
		return Wild[int(v.Q)%len(Wild)]()
	}
	panic("driver: unknown value " + v.T + "/" + v.G)
}

type selfRef struct {
	Name string
	Next *selfRef
}

type embA struct{ A, B interface{} }
type embPtr struct {
	*embA
	C interface{}
}
type loopEmb struct {
	*loopEmb
	A string
}
type stringer struct{ a int }

func (s stringer) String() string { return "x" }

type propper struct{ M map[string]interface{} }

// Others lists the exotic values: none of them is any JSON value.
func (c *Ctx) buildOther(g string) interface{} {
	one, str, iface := 1, "a", interface{}("a")
	ps := &str
	switch g {
	case "chan":
		return make(chan int, 1)
	case "func":
		return func() {}
	case "complex":
		return complex(1, 2)
	case "complex64":
		return complex64(complex(1, 0))
	case "gobytes":
		return [2]byte{1, 2}
	case "goarray":
		return [2]interface{}{"a", 1.0}
	case "goarray0":
		return [0]string{}
	case "intmap":
		return map[int]interface{}{1: "a"}
	case "anymap":
		return map[interface{}]interface{}{"a": 1, 2: "b"}
	case "structmap":
		return map[struct{ A int }]string{{1}: "a"}
	case "boolmap":
		return map[bool]string{true: "a"}
	case "emptyintmap":
		return map[int]string{}
	case "ptrptr":
		return &ps
	case "ptrptrint":
		p := &one
		return &p
	case "ptriface":
		return &iface
	case "unsafe":
		return unsafe.Pointer(&one)
	case "ptrchan":
		ch := make(chan int)
		return &ch
	case "ptrfunc":
		f := func() {}
		return &f
	case "ptrslice":
		return &[]interface{}{"a"}
	case "ptrintmap":
		return &map[int]string{1: "a"}
	}
	panic("driver: unknown other " + g)
}

func (c *Ctx) buildSlice(v V) interface{} {
	var et reflect.Type
	switch v.G {
	case "", "any":
		et = anyT
	case "named":
		r := make(namedSlice, len(v.E))
		for i, e := range v.E {
			r[i] = c.Build(e)
		}
		return r
	case "str":
		et = reflect.TypeOf("")
	case "int":
		et = reflect.TypeOf(0)
	case "f64":
		et = reflect.TypeOf(0.0)
	case "bool":
		et = reflect.TypeOf(true)
	case "map":
		et = reflect.TypeOf(map[string]interface{}{})
	case "slice":
		et = reflect.TypeOf([]interface{}{})
	default:
		panic("driver: slice of " + v.G)
	}
	s := reflect.MakeSlice(reflect.SliceOf(et), len(v.E), len(v.E))
	for i, e := range v.E {
		if x := c.Build(e); x != nil {
			s.Index(i).Set(reflect.ValueOf(x))
		}
	}
	return s.Interface()
}

func (c *Ctx) buildMap(v V) interface{} {
	switch v.G {
	case "", "any":
		m := make(map[string]interface{})
		for _, p := range v.P {
			m[Text(p.N)] = c.Build(p.V)
		}
		return m
	case "named":
		m := make(namedMap)
		for _, p := range v.P {
			m[Text(p.N)] = c.Build(p.V)
		}
		return m
	case "nkey":
		m := make(map[namedString]interface{})
		for _, p := range v.P {
			m[namedString(Text(p.N))] = c.Build(p.V)
		}
		return m
	case "str":
		m := make(map[string]string)
		for _, p := range v.P {
			m[Text(p.N)] = c.Build(p.V).(string)
		}
		return m
	case "int":
		m := make(map[string]int)
		for _, p := range v.P {
			m[Text(p.N)] = c.Build(p.V).(int)
		}
		return m
	case "f64":
		m := make(map[string]float64)
		for _, p := range v.P {
			m[Text(p.N)] = c.Build(p.V).(float64)
		}
		return m
	}
	panic("driver: map of " + v.G)
}

var maybeTypes = map[string]reflect.Type{
	"Bool":   reflect.TypeOf(jsval.MaybeBool{}),
	"Float":  reflect.TypeOf(jsval.MaybeFloat{}),
	"Int":    reflect.TypeOf(jsval.MaybeInt{}),
	"String": reflect.TypeOf(jsval.MaybeString{}),
	"Time":   reflect.TypeOf(jsval.MaybeTime{}),
	"Uint":   reflect.TypeOf(jsval.MaybeUint{}),
	"Own":    reflect.TypeOf(OwnMaybe{}),
	"Shared": reflect.TypeOf(SharedMaybe{}),
}

var maybeT = reflect.TypeOf((*jsval.Maybe)(nil)).Elem()

// OwnMaybe is a Maybe type of the user's: it takes everything but nil and booleans.
type OwnMaybe struct {
	ValidFlag bool
	V         interface{}
}

func (m *OwnMaybe) Valid() bool        { return m.ValidFlag }
func (m *OwnMaybe) Value() interface{} { return m.V }
func (m *OwnMaybe) Reset()             { *m = OwnMaybe{} }
func (m *OwnMaybe) Set(x interface{}) error {
	switch x.(type) {
	case nil, bool, namedBool:
		return errors.New("not for me")
	}
	m.ValidFlag, m.V = true, x
	return nil
}

// SharedMaybe is one whose methods are those of the value, not of a pointer to it.
type SharedMaybe struct{ Box *OwnMaybe }

func (m SharedMaybe) Valid() bool             { return m.Box.Valid() }
func (m SharedMaybe) Value() interface{}      { return m.Box.Value() }
func (m SharedMaybe) Reset()                  { m.Box.Reset() }
func (m SharedMaybe) Set(x interface{}) error { return m.Box.Set(x) }

// maybeParts returns the validity flag and the value of a Maybe.
func maybeParts(v reflect.Value) (flag, val reflect.Value) {
	if m, ok := v.Interface().(SharedMaybe); ok {
		if m.Box == nil {
			v.Field(0).Set(reflect.ValueOf(&OwnMaybe{}))
		}
		v = v.Field(0).Elem()
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Name == "ValidFlag" {
			flag = v.Field(i)
		} else if !val.IsValid() {
			val = v.Field(i)
		}
	}
	if !flag.IsValid() || !val.IsValid() {
		panic("driver: unexpected shape of " + v.Type().String())
	}
	return flag, val
}

const pkgPath = "vdrv/lib"

func (c *Ctx) structType(fs []Fld) reflect.Type {
	var l []reflect.StructField
	for _, f := range fs {
		sf := reflect.StructField{Name: string(f.Go)}
		if len(f.Tag) > 0 {
			sf.Tag = reflect.StructTag(`json:` + strconv.Quote(string(f.Tag)))
		}
		if c.Salt != "" { // a type of its own
			sf.Tag += reflect.StructTag(` salt:"` + c.Salt + `"`)
		}
		if !f.Exp {
			sf.PkgPath = pkgPath
		}
		switch {
		case f.Emb:
			sf.Anonymous = true
			sf.Type = c.structType(f.V.F)
			if f.Ptr {
				sf.Type = reflect.PtrTo(sf.Type)
			}
		case f.Maybe:
			sf.Type = maybeTypes[f.Mk]
			if f.Ptr {
				sf.Type = reflect.PtrTo(sf.Type)
			}
			if f.Ifc {
				sf.Type = maybeT
			}
		case f.Any || f.V.T == "nil":
			sf.Type = anyT
		default:
			sf.Type = reflect.TypeOf(c.Build(f.V))
		}
		l = append(l, sf)
	}
	return reflect.StructOf(l)
}

// buildStruct returns a pointer to the struct.
func (c *Ctx) buildStruct(v V) reflect.Value {
	t := c.structType(v.F)
	if v.Ty != "" && c.Salt == "" { // the same struct, declared
		d := declared[v.Ty]
		if d == nil || d.NumField() != t.NumField() {
			panic(fmt.Sprintf("driver: %s is not %s", v.Ty, t))
		}
		for i := 0; i < d.NumField(); i++ {
			if a, b := d.Field(i), t.Field(i); a.Name != b.Name || a.Type != b.Type || a.Tag != b.Tag {
				panic(fmt.Sprintf("driver: %s is not %s", v.Ty, t))
			}
		}
		t = d
	}
	p := reflect.New(t)
	c.fillStruct(p.Elem(), v.F)
	return p
}

func settable(fv reflect.Value) reflect.Value {
	if fv.CanSet() {
		return fv
	}
	return reflect.NewAt(fv.Type(), unsafe.Pointer(fv.UnsafeAddr())).Elem()
}

func (c *Ctx) fillStruct(s reflect.Value, fs []Fld) {
	for i, f := range fs {
		fv := settable(s.Field(i))
		switch {
		case f.Emb:
			if f.Ptr {
				if f.NilP {
					continue
				}
				fv.Set(reflect.New(fv.Type().Elem()))
				fv = fv.Elem()
			}
			c.fillStruct(fv, f.V.F)
		case f.Maybe:
			if f.Ptr {
				if f.NilP {
					continue
				}
				np := reflect.New(maybeTypes[f.Mk])
				fv.Set(np)
				fv = np.Elem()
			}
			if flag, val := maybeParts(fv); f.Valid {
				// set directly, not through the code under test
				flag.SetBool(true)
				x := reflect.ValueOf(c.Build(f.V))
				val.Set(x.Convert(val.Type()))
			}
		default:
			if x := c.Build(f.V); x != nil {
				fv.Set(reflect.ValueOf(x))
			}
		}
	}
}

func toF(v reflect.Value) float64 {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return float64(v.Int())
	}
	return float64(v.Uint())
}

// M is a JSON object under construction.
type M map[string]interface{}

// Encode is the inverse of Build, as generic JSON.
func (c *Ctx) Encode(x interface{}) interface{} {
	return c.enc(reflect.ValueOf(x))
}

// A byte that is not UTF-8 stands as the surrogate U+DC00 + byte.
func cps(s string) []int {
	r := []int{}
	for len(s) > 0 {
		x, n := utf8.DecodeRuneInString(s)
		if x == utf8.RuneError && n == 1 {
			x = 0xDC00 + rune(s[0])
		}
		r = append(r, int(x))
		s = s[n:]
	}
	return r
}

// Text is the inverse of cps.
func Text(r []rune) string {
	b := make([]byte, 0, len(r))
	for _, x := range r {
		if x >= 0xDC80 && x <= 0xDCFF {
			b = append(b, byte(x-0xDC00))
		} else {
			b = utf8.AppendRune(b, x)
		}
	}
	return string(b)
}

func (c *Ctx) enc(v reflect.Value) interface{} {
	if !v.IsValid() {
		return M{"t": "nil"}
	}
	if v.Type() == reflect.TypeOf(time.Time{}) {
		return M{"t": "time", "s": cps(v.Interface().(time.Time).UTC().Format(time.RFC3339Nano))}
	}
	switch v.Kind() {
	case reflect.Interface:
		return c.enc(v.Elem())
	case reflect.Bool:
		return M{"t": "bool", "b": v.Bool()}
	case reflect.String:
		return M{"t": "str", "s": cps(v.String())}
	case reflect.Slice:
		if v.IsNil() {
			return M{"t": "nilof", "g": "slice"}
		}
		l := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, c.enc(v.Index(i)))
		}
		return M{"t": "arr", "e": l}
	case reflect.Map:
		if v.Type().Key().Kind() != reflect.String {
			return M{"t": "other", "g": v.Type().String()}
		}
		if v.IsNil() {
			return M{"t": "nilof", "g": "map"}
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		l := []interface{}{}
		for _, k := range keys {
			l = append(l, M{"n": cps(k.String()), "v": c.enc(v.MapIndex(k))})
		}
		return M{"t": "obj", "g": "any", "p": l}
	case reflect.Struct:
		if h, ok := hookOf(v); ok {
			return c.encHook(v, h)
		}
		l := []interface{}{}
		for i := 0; i < v.NumField(); i++ {
			l = append(l, c.encField(v.Type().Field(i), v.Field(i)))
		}
		return M{"t": "struct", "f": l}
	case reflect.Ptr:
		if v.IsNil() {
			return M{"t": "nilof", "g": "ptr"}
		}
		switch k := v.Elem().Kind(); {
		case k == reflect.Map && v.Elem().Type().Key().Kind() == reflect.String:
		case k == reflect.Struct || k == reflect.String || k == reflect.Bool || kindNames[k] != "":
		default:
			return M{"t": "other", "g": v.Type().String()}
		}
		return M{"t": "ptr", "to": c.enc(v.Elem())}
	}
	if g, ok := kindNames[v.Kind()]; ok {
		f := toF(v)
		if q, ok := c.unit(f); ok {
			return M{"t": "num", "g": g, "q": q}
		}
		return M{"t": "other", "g": g + ":" + strconv.FormatFloat(f, 'g', -1, 64)}
	}
	if (v.Kind() == reflect.Chan || v.Kind() == reflect.Func) && v.IsNil() {
		return M{"t": "nilof", "g": v.Kind().String()}
	}
	return M{"t": "other", "g": v.Type().String()}
}

func (c *Ctx) encField(sf reflect.StructField, v reflect.Value) interface{} {
	m := M{"go": cps(sf.Name), "tag": cps(sf.Tag.Get("json")), "exp": sf.PkgPath == "", "emb": false, "maybe": false, "valid": false, "mk": "", "v": M{"t": "nil"}}
	t := sf.Type
	if t == maybeT {
		m["maybe"] = true
		if v.IsNil() {
			return m
		}
		v = v.Elem()
		t = v.Type()
	}
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	for mk, mt := range maybeTypes {
		if t == mt {
			m["maybe"], m["mk"] = true, mk
			if v.Kind() == reflect.Ptr {
				if v.IsNil() {
					return m
				}
				v = v.Elem()
			}
			if flag, val := maybeParts(v); flag.Bool() {
				m["valid"] = true
				m["v"] = c.enc(val)
			}
			return m
		}
	}
	if sf.Anonymous && t.Kind() == reflect.Struct {
		m["emb"] = true
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return m
			}
			v = v.Elem()
		}
		m["v"] = c.enc(v)
		return m
	}
	m["v"] = c.enc(v)
	return m
}

// Canon is the canonical text of an encoded value.
func Canon(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}
