package lib

import (
	"encoding/json"
	"regexp"

	jsval "github.com/lestrrat-go/jsval"
)

// C is a constraint in the encoding of Cons.tla.
type C struct {
	ID    *int   `json:"id"`
	K     string `json:"k"`
	Calls []Call `json:"calls"`
	C     *C     `json:"c"`
	Map   int    `json:"map"`
}

// Call is one setter call.
type Call struct {
	M    string          `json:"m"`
	N    json.RawMessage `json:"n"`
	Vs   []V             `json:"vs"`
	V    V               `json:"v"`
	F    string          `json:"f"`
	Q    int64           `json:"q"`
	B    bool            `json:"b"`
	C    *C              `json:"c"`
	Cs   []C             `json:"cs"`
	Ns   [][]rune        `json:"ns"`
	Src  string          `json:"src"`
	Via  bool            `json:"via"`
	Name []rune          `json:"name"`
}

func (x Call) num() int {
	var n int
	if err := json.Unmarshal(x.N, &n); err != nil {
		panic("driver: " + err.Error())
	}
	return n
}

func (x Call) name() string {
	var n []rune
	if err := json.Unmarshal(x.N, &n); err != nil {
		panic("driver: " + err.Error())
	}
	return Text(n)
}

func (x Call) names() []string {
	l := make([]string, len(x.Ns))
	for i, n := range x.Ns {
		l[i] = Text(n)
	}
	return l
}

// World holds the live objects of one behaviour.
type World struct {
	Ctx
	Heap  []jsval.Constraint // 1-based in cases
	Maps  []*jsval.ConstraintMap
	Slow  bool // lookups on behalf of references take time
	Clob  bool // lists are overwritten after they were passed on
	lists []func()
	Infos jsval.StructInfoRegistry
}

func (w *World) vals(l []V) []interface{} {
	r := make([]interface{}, len(l))
	for i, v := range l {
		r[i] = w.Make(v)
	}
	if w.Clob {
		w.lists = append(w.lists, func() {
			for i := range r {
				r[i] = "overwritten"
			}
		})
	}
	return r
}

func (w *World) names(l []string) []string {
	if w.Clob {
		w.lists = append(w.lists, func() {
			for i := range l {
				l[i] = "overwritten"
			}
		})
	}
	return l
}

func (w *World) children(l []jsval.Constraint) []jsval.Constraint {
	if w.Clob {
		w.lists = append(w.lists, func() {
			for i := range l {
				l[i] = jsval.Not(jsval.EmptyConstraint)
			}
		})
	}
	return l
}

// settle overwrites the lists that were passed since there were n of them
func (w *World) settle(n int) {
	for _, f := range w.lists[n:] {
		f()
	}
	w.lists = w.lists[:n]
}

// Cons makes (or finds) the constraint.
func (w *World) Cons(c *C) jsval.Constraint {
	if c.ID != nil {
		if *c.ID == 0 {
			return nil
		}
		return w.Heap[*c.ID-1]
	}
	o, calls := w.alloc(c), c.Calls
	if w.Clob && c.K == "enum" && len(calls) > 0 && calls[0].M == "Enum" {
		n := len(w.lists)
		o, calls = jsval.Enum(w.vals(calls[0].Vs)...), calls[1:]
		w.settle(n)
	}
	for _, call := range calls {
		w.Apply(o, call)
	}
	return o
}

// alien is a constraint of another package; it accepts everything.
type alien struct{}

func (alien) Validate(interface{}) error { return nil }
func (alien) HasDefault() bool           { return false }
func (alien) DefaultValue() interface{}  { return nil }

type reducer interface{ Reduce() jsval.Constraint }

func (w *World) alloc(c *C) jsval.Constraint {
	switch c.K {
	case "string":
		return jsval.String()
	case "number":
		return jsval.Number()
	case "integer":
		return jsval.Integer()
	case "bool":
		return jsval.Boolean()
	case "null":
		return jsval.NullConstraint
	case "empty":
		return jsval.EmptyConstraint
	case "enum":
		return jsval.Enum()
	case "any":
		return jsval.Any()
	case "all":
		return jsval.All()
	case "oneof":
		return jsval.OneOf()
	case "not":
		if ch := w.Cons(c.C); ch != nil {
			return jsval.Not(ch)
		}
		return jsval.Not(nil)
	case "reduce":
		return w.Cons(c.C).(reducer).Reduce()
	case "alien":
		return alien{}
	case "array":
		return jsval.Array()
	case "object":
		return jsval.Object()
	case "ref":
		m := c.Map
		if m == 0 {
			m = 1
		}
		if w.Slow {
			return jsval.Reference(slow{w.Maps[m-1]})
		}
		return jsval.Reference(w.Maps[m-1])
	}
	panic("driver: unknown constraint kind " + c.K)
}

// setter lets every setter be written with a nil-safe child
func (w *World) child(c *C) jsval.Constraint {
	if c == nil {
		return nil
	}
	return w.Cons(c)
}

// Apply performs one setter call.
func (w *World) Apply(o jsval.Constraint, x Call) {
	if w.Clob {
		defer w.settle(len(w.lists))
	}
	switch t := o.(type) {
	case *jsval.StringConstraint:
		switch x.M {
		case "MaxLength":
			t.MaxLength(x.num())
		case "MinLength":
			t.MinLength(x.num())
		case "Regexp":
			if x.Via {
				t.RegexpString(x.Src)
			} else {
				t.Regexp(regexp.MustCompile(x.Src))
			}
		case "Enum":
			t.Enum(w.vals(x.Vs)...)
		case "Format":
			t.Format(x.F)
		case "Default":
			t.Default(w.Make(x.V))
		default:
			panic("driver: string." + x.M)
		}
	case *jsval.IntegerConstraint:
		switch x.M {
		case "Minimum":
			t.Minimum(w.float(x.Q))
		case "Maximum":
			t.Maximum(w.float(x.Q))
		case "MultipleOf":
			t.MultipleOf(w.float(x.Q))
		case "ExclusiveMinimum":
			t.ExclusiveMinimum(x.B)
		case "ExclusiveMaximum":
			t.ExclusiveMaximum(x.B)
		case "Enum":
			t.Enum(w.vals(x.Vs)...)
		case "Default":
			t.Default(w.Make(x.V))
		default:
			panic("driver: integer." + x.M)
		}
	case *jsval.NumberConstraint:
		switch x.M {
		case "Minimum":
			t.Minimum(w.float(x.Q))
		case "Maximum":
			t.Maximum(w.float(x.Q))
		case "MultipleOf":
			t.MultipleOf(w.float(x.Q))
		case "ExclusiveMinimum":
			t.ExclusiveMinimum(x.B)
		case "ExclusiveMaximum":
			t.ExclusiveMaximum(x.B)
		case "Enum":
			t.Enum(w.vals(x.Vs)...)
		case "Default":
			t.Default(w.Make(x.V))
		default:
			panic("driver: number." + x.M)
		}
	case *jsval.BooleanConstraint:
		switch x.M {
		case "Enum":
			t.Enum(w.vals(x.Vs)...)
		case "Default":
			t.Default(w.Make(x.V))
		default:
			panic("driver: bool." + x.M)
		}
	case *jsval.EnumConstraint:
		t.Enum(w.vals(x.Vs)...)
	case *jsval.AnyConstraint:
		t.Add(w.child(x.C))
	case *jsval.AllConstraint:
		t.Add(w.child(x.C))
	case *jsval.OneOfConstraint:
		t.Add(w.child(x.C))
	case *jsval.ArrayConstraint:
		switch x.M {
		case "MinItems":
			t.MinItems(x.num())
		case "MaxItems":
			t.MaxItems(x.num())
		case "UniqueItems":
			t.UniqueItems(x.B)
		case "Items":
			t.Items(w.child(x.C))
		case "AdditionalItems":
			t.AdditionalItems(w.child(x.C))
		case "PositionalItems":
			l := make([]jsval.Constraint, len(x.Cs))
			for i := range x.Cs {
				l[i] = w.Cons(&x.Cs[i])
			}
			t.PositionalItems(w.children(l))
		default:
			panic("driver: array." + x.M)
		}
	case *jsval.ObjectConstraint:
		switch x.M {
		case "MinProperties":
			t.MinProperties(x.num())
		case "MaxProperties":
			t.MaxProperties(x.num())
		case "Required":
			t.Required(w.names(x.names())...)
		case "AddProp":
			t.AddProp(x.name(), w.child(x.C))
		case "PatternProperties":
			if x.Via {
				t.PatternPropertiesString(x.Src, w.child(x.C))
			} else {
				t.PatternProperties(regexp.MustCompile(x.Src), w.child(x.C))
			}
		case "AdditionalProperties":
			t.AdditionalProperties(w.child(x.C))
		case "PropDependency":
			t.PropDependency(x.name(), w.names(x.names())...)
		case "SchemaDependency":
			t.SchemaDependency(x.name(), w.child(x.C))
		default:
			panic("driver: object." + x.M)
		}
	case *jsval.ReferenceConstraint:
		if x.M != "RefersTo" {
			panic("driver: ref." + x.M)
		}
		t.RefersTo(Text(x.Name))
	default:
		panic("driver: no setters on this constraint: " + x.M)
	}
}

func newJSVal(w *World, c jsval.Constraint) *jsval.JSVal {
	return jsval.New().SetConstraintMap(w.Maps[0]).SetName("x").SetRoot(c)
}
