TOP = '''type T struct {
	A string `json:"a"`
	B jsval.MaybeString `json:"b"`
	set map[string]interface{}
	names []string
	fail bool
}

func (t T) GetPropNames() ([]string, error) {
	if t.names == nil {
		return nil, errors.New("none")
	}
	return t.names, nil
}

func (t T) GetPropValue(n string) (interface{}, error) {
	if x, ok := t.set[n]; ok {
		return x, nil
	}
	return nil, errors.New("none")
}

func (t T) SetPropValue(n string, x interface{}) error {
	if t.fail {
		return errors.New("cannot set")
	}
	t.set[n] = x
	return nil
}
'''
NAMES = """			pv, err := gpv.GetPropNames()
			if err == nil {
				return pv, nil
			}
"""
VALUE = """			pv, err := gpv.GetPropValue(pname)
			if err == nil {
				return reflect.ValueOf(pv)
			}
"""
SEEDS = [
("c19-names-fail", "C19", "a GetPropNames that returns an error", "validation fails instead of using the fields",
 [("object.go", NAMES, """			return gpv.GetPropNames()
""")],
 '''	must(jsval.Object().AddProp("a", jsval.String()).Validate(T{A: "x"}) == nil, "fields not used")''', {"TOP": TOP}),
("c19-names-remembered", "C19", "two structs of one type whose GetPropNames differ", "the second is validated with the names of the first",
 [("object.go", NAMES, """			if si, ok := structInfoRegistry.Lookup(rv.Type()); ok && len(si.names) > 0 {
				return si.names, nil
			}
			pv, err := gpv.GetPropNames()
			if err == nil {
				si := structInfoRegistry.Register(rv.Type())
				si.names = pv
				structInfoRegistry.lock.Lock()
				structInfoRegistry.registry[rv.Type()] = si
				structInfoRegistry.lock.Unlock()
				return si.names, nil
			}
"""), ("structinfo.go", """	lock  sync.RWMutex
	props map[string]PropInfo
""", """	lock  sync.RWMutex
	props map[string]PropInfo
	names []string // names that the type itself told us
""")],
 '''	c := jsval.Object().AddProp("a", jsval.String())
	must(c.Validate(T{names: []string{"a"}, set: map[string]interface{}{"a": "x"}}) == nil, "first")
	must(c.Validate(T{names: []string{"a", "z"}, set: map[string]interface{}{"a": "x", "z": "x"}}) != nil, "second has an additional property")''', {"TOP": TOP}),
("c19-value-fail", "C19", "a GetPropValue that fails for a property that a field has", "the property counts as absent",
 [("object.go", VALUE, """			pv, err := gpv.GetPropValue(pname)
			if err != nil {
				return zeroval
			}
			return reflect.ValueOf(pv)
""")],
 '''	must(jsval.Object().AddProp("a", jsval.String().MinLength(1)).Validate(T{A: "x", names: []string{"a"}}) == nil, "the field has the value")''', {"TOP": TOP}),
("c19-value-wins-empty", "C19", "a GetPropValue that answers with an empty value where the field has another", "the field is used",
 [("object.go", VALUE, """			pv, err := gpv.GetPropValue(pname)
			if err == nil && pv != "" {
				return reflect.ValueOf(pv)
			}
""")],
 '''	must(jsval.Object().AddProp("a", jsval.String().MinLength(1)).Validate(T{A: "x", names: []string{"a"}, set: map[string]interface{}{"a": ""}}) != nil, "the value is empty")''', {"TOP": TOP}),
("c19-set-error-lost", "C19", "a SetPropValue that fails", "validation succeeds though the default could not be stored",
 [("object.go", """				if err := o.setProp(rv, pname, dv); err != nil {
					return errors.New("failed to set default value for property '" + pname + "': " + err.Error())
				}
""", """				err := o.setProp(rv, pname, dv)
				if _, ok := rv.Interface().(setPropValuer); err != nil && !ok {
					return errors.New("failed to set default value for property '" + pname + "': " + err.Error())
				}
""")],
 '''	t := T{names: []string{"a"}, set: map[string]interface{}{"a": "x"}, fail: true}
	must(jsval.Object().AddProp("a", jsval.String()).AddProp("b", jsval.String().Default("z")).Validate(t) != nil, "default not stored")''', {"TOP": TOP}),
]
