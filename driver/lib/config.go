package lib

import (
	"encoding/json"
	"reflect"
	"regexp"
	"sort"
	"strings"

	jsval "github.com/lestrrat-go/jsval"
)

// Obj is an object of a configuration history.
type Obj struct {
	K   string `json:"k"`
	C   int    `json:"c"`
	Map int    `json:"map"`
}

type cfgStep struct {
	E   string          `json:"e"`
	O   int             `json:"o"`
	M   string          `json:"m"`
	N   json.RawMessage `json:"n"`
	Ns  [][]rune        `json:"ns"`
	C   int             `json:"c"`
	Cs  []int           `json:"cs"`
	Os  []int           `json:"os"`
	V   V               `json:"v"`
	Vs  []V             `json:"vs"`
	Q   int64           `json:"q"`
	B   bool            `json:"b"`
	Src string          `json:"src"`
	F   string          `json:"f"`
}

// RunConfig configures objects and asks them what they are.
func RunConfig(raw []byte) ([]byte, error) {
	var b struct {
		Sh   int               `json:"sh"`
		Objs []Obj             `json:"objs"`
		Ev   []json.RawMessage `json:"ev"`
	}
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, err
	}
	var out map[string]interface{}
	if err := json.Unmarshal(raw, &out); err != nil {
		return nil, err
	}
	w := &World{Ctx: Ctx{Sh: b.Sh}}
	objs := make([]interface{}, len(b.Objs)+1)
	ref := func(i int) jsval.Constraint {
		if i == 0 {
			return nil
		}
		return objs[i].(jsval.Constraint)
	}
	for i, o := range b.Objs {
		switch o.K {
		case "map":
			objs[i+1] = &jsval.ConstraintMap{}
		case "val":
			objs[i+1] = jsval.New()
		case "ref":
			objs[i+1] = jsval.Reference(objs[o.Map].(jsval.RefResolver))
		case "not":
			objs[i+1] = jsval.Not(ref(o.C))
		default:
			objs[i+1] = w.alloc(&C{K: o.K})
		}
	}
	id := func(c interface{}) int {
		if c == nil {
			return 0
		}
		for i := 1; i < len(objs); i++ {
			if objs[i] == c {
				return i
			}
		}
		return -1
	}
	evs := []interface{}{}
	for _, r := range b.Ev {
		var x cfgStep
		if err := json.Unmarshal(r, &x); err != nil {
			return nil, err
		}
		res := M{}
		if err := json.Unmarshal(r, &res); err != nil {
			return nil, err
		}
		if kind, detail := Guard(func() { w.cfg(&x, res, objs, ref, id) }); kind != "" {
			if kind == "driver" {
				panic(detail)
			}
			evs = append(evs, M{"e": kind, "detail": detail})
			break
		}
		evs = append(evs, res)
	}
	out["ev"] = evs
	return json.Marshal(out)
}

func (w *World) cfg(x *cfgStep, res M, objs []interface{}, ref func(int) jsval.Constraint, id func(interface{}) int) {
	call := Call{N: x.N, Ns: x.Ns}
	if x.E == "sort" {
		l := jsval.JSValSlice{}
		for _, i := range x.Os {
			l = append(l, objs[i].(*jsval.JSVal))
		}
		sort.Sort(l)
		r := []int{}
		for _, v := range l {
			r = append(r, id(v))
		}
		res["r"] = r
		return
	}
	o := objs[x.O]
	rv := reflect.ValueOf(o)
	if x.E == "call" {
		var args []reflect.Value
		add := func(a ...interface{}) {
			for _, y := range a {
				args = append(args, reflect.ValueOf(y))
			}
		}
		cons := func(i int) {
			if i == 0 {
				args = append(args, reflect.Zero(reflect.TypeOf((*jsval.Constraint)(nil)).Elem()))
				return
			}
			args = append(args, reflect.ValueOf(ref(i)))
		}
		iface := func(y interface{}) {
			if y == nil {
				args = append(args, reflect.Zero(reflect.TypeOf((*interface{})(nil)).Elem()))
				return
			}
			args = append(args, reflect.ValueOf(y))
		}
		switch x.M {
		case "Required":
			for _, n := range call.names() {
				add(n)
			}
		case "PropDependency":
			l := call.names()
			o.(*jsval.ObjectConstraint).PropDependency(call.name(), l...)
			for i := range l { // the list is ours
				l[i] = "overwritten"
			}
			res["self"] = true
			return
		case "SchemaDependency", "AddProp", "SetReference":
			add(call.name())
			cons(x.C)
		case "Add", "Items", "AdditionalItems", "AdditionalProperties", "SetRoot":
			cons(x.C)
		case "PatternPropertiesString":
			add(x.Src)
			cons(x.C)
		case "PatternProperties":
			add(regexp.MustCompile(x.Src))
			cons(x.C)
		case "PositionalItems":
			l := []jsval.Constraint{}
			for _, i := range x.Cs {
				l = append(l, ref(i))
			}
			add(l)
		case "Default":
			iface(w.Make(x.V))
		case "Enum":
			for _, v := range w.vals(x.Vs) {
				iface(v)
			}
		case "Minimum", "Maximum", "MultipleOf":
			add(w.float(x.Q))
		case "ExclusiveMinimum", "ExclusiveMaximum", "UniqueItems":
			add(x.B)
		case "MinLength", "MaxLength", "MinItems", "MaxItems", "MinProperties", "MaxProperties":
			add(call.num())
		case "Regexp":
			add(regexp.MustCompile(x.Src))
		case "RegexpString":
			add(x.Src)
		case "Format":
			add(x.F)
		case "RefersTo", "SetName":
			add(call.name())
		case "SetConstraintMap":
			switch m := objs[x.C].(type) {
			case *jsval.JSVal:
				add(m.ConstraintMap)
			default:
				add(m)
			}
		default:
			panic("driver: unknown call " + x.M)
		}
		m := rv.MethodByName(x.M)
		if !m.IsValid() {
			panic("driver: no method " + x.M)
		}
		r := m.Call(args)
		res["self"] = len(r) == 0 || len(r) == 1 && r[0].CanInterface() && r[0].Interface() == o
		return
	}
	con := func(c jsval.Constraint, err error) interface{} {
		if err != nil {
			if c != nil {
				return -1
			}
			return 0
		}
		if c == nil {
			return -1 // neither a constraint nor an error
		}
		return id(c)
	}
	switch x.M {
	case "IsPropRequired":
		res["r"] = o.(*jsval.ObjectConstraint).IsPropRequired(call.name())
	case "GetPropDependencies":
		l := []interface{}{}
		for _, n := range o.(*jsval.ObjectConstraint).GetPropDependencies(call.name()) {
			l = append(l, cps(n))
		}
		res["r"] = l
	case "GetSchemaDependency":
		res["r"] = 0
		if c := o.(*jsval.ObjectConstraint).GetSchemaDependency(call.name()); c != nil {
			res["r"] = id(c)
		}
	case "Constraints":
		l := []int{}
		for _, c := range o.(interface{ Constraints() []jsval.Constraint }).Constraints() {
			l = append(l, id(c))
		}
		res["r"] = l
	case "Reduce":
		res["r"] = id(o.(reducer).Reduce())
	case "HasDefault":
		res["r"] = o.(jsval.Constraint).HasDefault()
	case "DefaultValue":
		res["r"] = w.Encode(o.(jsval.Constraint).DefaultValue())
	case "Len":
		res["r"] = o.(interface{ Len() int }).Len()
	case "GetReference":
		res["r"] = con(o.(jsval.RefResolver).GetReference(call.name()))
	case "Resolved":
		res["r"] = con(o.(*jsval.ReferenceConstraint).Resolved())
	case "Root":
		res["r"] = 0
		if c := o.(*jsval.JSVal).Root(); c != nil {
			res["r"] = id(c)
		}
	case "Name":
		res["r"] = cps(o.(*jsval.JSVal).Name)
	case "Fails":
		v := o.(*jsval.JSVal)
		err := v.Validate(w.Make(x.V))
		res["r"] = err == nil
		res["named"] = err != nil && strings.Contains(err.Error(), v.Name)
	case "Validate":
		res["r"] = o.(jsval.Constraint).Validate(w.Make(x.V)) == nil
	default:
		panic("driver: unknown question " + x.M)
	}
}
