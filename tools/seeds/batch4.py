SEEDS = [
("c20-map-copied", "C20", "a reference registered in a shared map after SetConstraintMap", "the validator does not see it",
 [("jsval.go", """	v.ConstraintMap = cm
	return v""", """	if cm == nil {
		v.ConstraintMap = cm
		return v
	}
	v.ConstraintMap = &ConstraintMap{refs: cm.allReferences()}
	return v""")],
 '''	m := &jsval.ConstraintMap{}
	v := jsval.New().SetConstraintMap(m)
	m.SetReference("a", jsval.String())
	_, err := v.GetReference("a")
	must(err == nil, "not shared")'''),
("c20-len-nil", "C20", "a name registered twice", "Len counts both",
 [("reference.go", """	lock sync.Mutex
	refs map[string]Constraint
}""", """	lock  sync.Mutex
	refs  map[string]Constraint
	count int
}"""), ("reference.go", "	return len(cm.refmap())", "	return cm.count"), ("reference.go", "	refs := cm.refmap()\n	refs[name] = c\n", "	refs := cm.refmap()\n	refs[name] = c\n	cm.count++\n")],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("a", jsval.String())
	m.SetReference("a", jsval.Boolean())
	must(m.Len() == 1, "one name")'''),
("c20-less-by-length", "C20", "validators whose names differ in length and first letter", "sorted by length",
 [("jsval.go", "{ return p[i].Name < p[j].Name }", "{ return len(p[i].Name) < len(p[j].Name) || len(p[i].Name) == len(p[j].Name) && p[i].Name < p[j].Name }")],
 '''	l := jsval.JSValSlice{jsval.New().SetName("b"), jsval.New().SetName("aa")}
	sort.Sort(l)
	must(l[0].Name == "aa", "order")'''),
("c20-default-nil", "C20", "a default of nil on a boolean", "counts as no default",
 [("bool.go", "	bc.defaultValue.initialized = true\n", "	bc.defaultValue.initialized = v != nil\n")],
 '''	must(jsval.Boolean().Default(nil).HasDefault(), "has a default")'''),
("c20-required-folded", "C20", "names that differ only by surrounding blanks", "both count as required",
 [("object.go", "		o.required[pname] = struct{}{}\n", "		o.required[strings.TrimSpace(pname)] = struct{}{}\n"), ("object.go", '	"reflect"\n', '	"reflect"\n	"strings"\n')],
 '''	must(jsval.Object().Required("a ").IsPropRequired("a "), "required")'''),
("c20-deps-shared", "C20", "PropDependency for two names with one list that has room", "adding to one changes the other",
 [("object.go", """	l := o.propdeps[from]
	l = append(l, to...)
	o.propdeps[from] = l
""", """	if l, ok := o.propdeps[from]; ok {
		to = append(l, to...)
	}
	o.propdeps[from] = to
""")],
 '''	l := []string{"x"}
	o := jsval.Object().PropDependency("a", l...)
	l[0] = "y"
	must(o.GetPropDependencies("a")[0] == "x", "the list of the caller is used")'''),
]
