M = "map[string]interface{}"
SEEDS = [
# ---- C01
("c01-hostname-last-label", "C01", "a hostname whose last label is longer than 63 characters", "such a hostname is accepted",
 [("string.go", "	if last == '-' || partlen > 63 {", "	if last == '-' {")],
 '''	must(jsval.String().Format("hostname").Validate("www." + strings.Repeat("a", 64)) != nil, "label of 64 characters accepted")
	must(jsval.String().Format("hostname").Validate("www." + strings.Repeat("a", 63)) == nil, "label of 63 characters rejected")'''),
("c01-empty-match", "C01", "a pattern that matches the empty string, and a text where only an empty match exists", "the text is rejected although the expression matches it",
 [("string.go", "		if !rx.MatchString(str) {", "		if rx.FindString(str) == \"\" {")],
 '''	must(jsval.String().RegexpString("^x*").Validate("abc") == nil, "^x* matches abc")
	must(jsval.String().RegexpString("^x+").Validate("abc") != nil, "^x+ does not match abc")'''),
("c01-ipv4-colon", "C01", "a text made of digits, dots and colons that is an IPv6 address", "it is accepted as ipv4",
 [("string.go", "			case r == 0x2E || 0x30 <= r && r <= 0x39:", "			case r == 0x2E || 0x30 <= r && r <= 0x3A:")],
 '''	must(jsval.String().Format("ipv4").Validate("1::2") != nil, "1::2 accepted as ipv4")'''),
("c01-maxlength-zero", "C01", "a maximum length of zero", "maxLength 0 is ignored",
 [("string.go", "	if sc.maxLength > -1 {", "	if sc.maxLength > 0 {")],
 '''	must(jsval.String().MaxLength(0).Validate("a") != nil, "a accepted")'''),
("c01-datetime-offset", "C01", "a date-time with a numeric offset", "it is rejected",
 [("string.go", "		if _, err = time.Parse(time.RFC3339, str); err != nil {", "		if _, err = time.Parse(\"2006-01-02T15:04:05Z\", str); err != nil {")],
 '''	must(jsval.String().Format("date-time").Validate("2016-01-02T03:04:05+09:00") == nil, "offset rejected")'''),
# ---- C02
("c02-uint-as-int", "C02", "an unsigned value of 2^63 or more", "it is taken as a negative number",
 [("number.go", "		return ic.NumberConstraint.Validate(float64(rv.Uint()))", "		return ic.NumberConstraint.Validate(float64(int64(rv.Uint())))")],
 '''	must(jsval.Integer().Minimum(0).Validate(uint64(1)<<63) == nil, "2^63 is not negative")'''),
("c02-bound-clears-exclusive", "C02", "ExclusiveMaximum set before Maximum on an integer constraint", "the marker is lost",
 [("number.go", """	ic.applyMaximum = true
	ic.maximum = n
""", """	ic.applyMaximum, ic.exclusiveMaximum = true, false
	ic.maximum = n
""")],
 '''	must(jsval.Integer().ExclusiveMaximum(true).Maximum(3).Validate(3) != nil, "3 < 3")'''),
("c02-large-floats", "C02", "a float of 2^63 or more, which is integral", "it is rejected as not being an integer",
 [("number.go", "		if math.Floor(fv) != fv {", "		if float64(int64(fv)) != fv {")],
 '''	must(jsval.Integer().Validate(1e300) == nil, "1e300 is an integer")'''),
("c02-exclusive-min-equal", "C02", "both bounds exclusive and a value equal to the minimum", "the minimum itself is accepted if the maximum is exclusive too",
 [("number.go", "		if nc.exclusiveMinimum {", "		if nc.exclusiveMinimum && !nc.exclusiveMaximum {")],
 '''	must(jsval.Number().Minimum(1).ExclusiveMinimum(true).Maximum(2).ExclusiveMaximum(true).Validate(1.0) != nil, "1 < 1")'''),
# ---- C03
("c03-oneof-two", "C03", "three alternatives that all accept", "OneOf accepts a value that all of its three children accept",
 [("combinations.go", "	} else if count > 1 {", "	} else if count == 2 {")],
 '''	c := jsval.OneOf().Add(jsval.String()).Add(jsval.EmptyConstraint).Add(jsval.String().MinLength(1))
	must(c.Validate("abc") != nil, "three alternatives match")'''),
("c03-reduce-empty", "C03", "reducing an Any or OneOf without children", "the result accepts everything",
 [("combinations.go", """	if len(l) == 1 {
		return l[0]
	}
""", """	switch len(l) {
	case 0:
		return EmptyConstraint
	case 1:
		return l[0]
	}
""")],
 '''	must(jsval.OneOf().Reduce().Validate(1) != nil, "an empty OneOf accepts nothing")'''),
("c03-null-chan", "C03", "a nil channel or function", "the null constraint rejects it",
 [("basic.go", "	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:\n		if rv.IsNil() {\n			return nil", "	case reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:\n		if rv.IsNil() {\n			return nil")],
 '''	var f func()
	must(jsval.NullConstraint.Validate(f) == nil, "nil func")'''),
("c04-first-additional", "C04", "an array with exactly one more element than positional rules", "the first additional element is not checked",
 [("array.go", "		if lp > 0 && l > lp {", "		if lp > 0 && l > lp+1 {")],
 '''	c := jsval.Array().PositionalItems([]jsval.Constraint{jsval.String()}).AdditionalItems(jsval.Boolean())
	must(c.Validate([]interface{}{"a", 1}) != nil, "1 is not a boolean")'''),
("c04-additional-alone", "C04", "additional items set without positional rules", "the additional items constraint is applied to all items",
 [("array.go", "		if lp > 0 && l > lp {", "		if l > lp {")],
 '''	must(jsval.Array().AdditionalItems(jsval.Boolean()).Validate([]interface{}{1}) == nil, "no effect without positional rules")'''),
("c04-max-items-zero", "C04", "maxItems 0", "maxItems 0 is ignored",
 [("array.go", "	if mi := c.maxItems; mi > -1 && l > mi {", "	if mi := c.maxItems; mi > 0 && l > mi {")],
 '''	must(jsval.Array().MaxItems(0).Validate([]interface{}{1}) != nil, "one item")'''),
("c04-positional-last", "C04", "an array shorter than the positional rules that violates one of the rules it reaches", "its elements are not checked",
 [("array.go", """			if lv <= i {
				break
			}
""", """			if lv < len(c.positionalItems) {
				break
			}
""")],
 '''	c := jsval.Array().PositionalItems([]jsval.Constraint{jsval.String(), jsval.Boolean()})
	must(c.Validate([]interface{}{1}) != nil, "1 is not a string")'''),
# ---- C05
("c05-required-replaced", "C05", "Required called twice", "the names of the first call are no longer required",
 [("object.go", """	defer o.reqlock.Unlock()

	for _, pname := range l {
		o.required[pname] = struct{}{}
""", """	defer o.reqlock.Unlock()

	o.required = make(map[string]struct{}, len(l))
	for i := range l {
		o.required[l[i]] = struct{}{}
""")],
 '''	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).Required("a").Required("b")
	must(c.Validate(map[string]interface{}{"b": 1}) != nil, "a is required")'''),
("c05-max-properties-zero", "C05", "maxProperties 0", "maxProperties 0 is ignored",
 [("object.go", "	if o.maxProperties > -1 && lf > o.maxProperties {", "	if o.maxProperties > 0 && lf > o.maxProperties {")],
 '''	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).MaxProperties(0)
	must(c.Validate(map[string]interface{}{"b": 1}) != nil, "one property")'''),
("c05-additional-not-seen", "C05", "a dependency of (or on) a property that only the additional-properties rule covers", "dependencies of such properties are not enforced",
 [("object.go", """	for pname := range pseen {
		if deps""", """	for pname := range propdefs {
		if _, ok := pseen[pname]; !ok {
			continue
		}
		if deps""")],
 '''	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).PropDependency("a", "b")
	must(c.Validate(map[string]interface{}{"a": 1}) != nil, "b is missing")'''),
("c05-last-dependency", "C05", "a property that depends on several others of which the first is missing", "only the last one is checked",
 [("object.go", "			for _, dep := range deps {", "			for _, dep := range deps[len(deps)-1:] {")],
 '''	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).PropDependency("a", "b", "c")
	must(c.Validate(map[string]interface{}{"a": 1, "c": 1}) != nil, "b is missing")'''),
# ---- C06
("c06-default-before-required", "C06", "a required property with a default that is missing", "the default satisfies the requirement",
 [("object.go", "			if o.IsPropRequired(pname) { // required", "			if !c.HasDefault() && o.IsPropRequired(pname) { // required")],
 '''	c := jsval.Object().AddProp("a", jsval.String().Default("x")).Required("a")
	must(c.Validate(map[string]interface{}{}) != nil, "a is required")'''),
("c06-ref-default-lost", "C06", "a default that is reached through a chain of two references", "it is not filled in",
 [("reference.go", "		return false\n	}\n	return c.HasDefault()", "		return false\n	}\n	_, ok := c.(*ReferenceConstraint)\n	return !ok && c.HasDefault()")],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("a", jsval.Reference(m).RefersTo("b"))
	m.SetReference("b", jsval.String().Default("x"))
	in := map[string]interface{}{}
	must(jsval.Object().AddProp("p", jsval.Reference(m).RefersTo("a")).Validate(in) == nil && in["p"] == "x", "default missing")'''),
("c06-default-is-seen", "C06", "a default for a property that another property depends on", "the default satisfies the dependency",
 [("object.go", """					return errors.New("failed to set default value for property '" + pname + "': " + err.Error())
				}
			}
""", """					return errors.New("failed to set default value for property '" + pname + "': " + err.Error())
				}
				pseen[pname] = struct{}{}
			}
"""), ("object.go", """			for _, dep := range deps {
				if _, ok := pseen[dep]; !ok {""", """			for i := range deps {
				if _, ok := pseen[deps[i]]; !ok {"""), ("object.go", "required dependency '\" + dep + \"'", "required dependency '\" + deps[i] + \"'")],
 '''	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).AddProp("b", jsval.String().Default("x")).PropDependency("a", "b")
	must(c.Validate(map[string]interface{}{"a": 1}) != nil, "b is missing")'''),
("c06-null-gets-default", "C06", "a declared property that is present with the value nil", "the default overwrites it",
 [("object.go", "		if !propExists {", "		if !propExists || pval == nil {")],
 '''	in := map[string]interface{}{"a": nil}
	jsval.Object().AddProp("a", jsval.String().Default("x")).Validate(in)
	must(in["a"] == nil, "present property changed")'''),
# ---- C07
("c07-dash-comma", "C07", "a field tagged - with options, whose JSON name is a dash", "the field is ignored",
 [("structinfo.go", "		if fv.PkgPath != \"\" { // not exported", "		if fv.PkgPath != \"\" || strings.HasPrefix(fv.Tag.Get(\"json\"), \"-\") { // not exported, or ignored")],
 '''	v := struct { A int `json:"-,"` }{1}
	must(jsval.Object().AddProp("-", jsval.Integer()).Required("-").Validate(v) == nil, "the field is called -")'''),
("c07-types-by-name", "C07", "two different struct types with the same printed name", "the second is taken for the first",
 [("structinfo.go", "	registry map[reflect.Type]StructInfo\n}", "	registry map[string]StructInfo\n}"),
  ("structinfo.go", """	r.lock.RLock()
	si, ok := r.registry[t]
	r.lock.RUnlock()

	return si, ok""", """	r.lock.RLock()
	si, ok := r.registry[t.String()]
	r.lock.RUnlock()

	return si, ok"""),
  ("structinfo.go", """	r.lock.RLock()
	si, ok := r.registry[t]
	r.lock.RUnlock()

	if ok {""", """	r.lock.RLock()
	si, ok := r.registry[t.String()]
	r.lock.RUnlock()

	if ok {"""),
  ("structinfo.go", "		r.registry = make(map[reflect.Type]StructInfo)", "		r.registry = make(map[string]StructInfo)"),
  ("structinfo.go", "	r.registry[t] = si", "	r.registry[t.String()] = si"),
  ("object.go", "	registry: make(map[reflect.Type]StructInfo),", "	registry: make(map[string]StructInfo),")],
 '''	must(c().Validate(first()) != nil, "no property b")
	must(c().Validate(second()) == nil, "has property b")''',
 {"TOP": '''func c() jsval.Constraint { return jsval.Object().AdditionalProperties(jsval.EmptyConstraint).Required("b") }

func first() interface{} {
	type item struct{ A int `json:"a"` }
	return item{1}
}

func second() interface{} {
	type item struct{ B int `json:"b"` }
	return item{1}
}
'''}),
("c07-float32-default", "C07", "a MaybeFloat field with a default that is not a float32", "the default is rounded when it is stored",
 [("object.go", "	floatT      = reflect.TypeOf(float64(0))", "	floatT      = reflect.TypeOf(float32(0))")],
 '''	v := &struct { A jsval.MaybeFloat }{}
	must(jsval.Object().AddProp("A", jsval.Number().Default(0.1)).Validate(v) == nil && v.A.Valid() && v.A.Float == 0.1, "default rounded")'''),
# ---- C08
("c08-time-flag-first", "C08", "setting a MaybeTime with a malformed text", "the failed set makes it valid",
 [("maybe.go", """	switch x.(type) {
	case string:
		tv, err""", """	v.ValidFlag = true
	switch x.(type) {
	case string:
		tv, err"""), ("maybe.go", """		v.ValidFlag = true
		v.Time = tv
	case time.Time:
		v.ValidFlag = true
""", """		v.Time = tv
	case time.Time:
""")],
 '''	var v jsval.MaybeTime
	must(v.Set("nonsense") != nil && !v.Valid(), "valid after a failed set")'''),
("c08-uint-through-int", "C08", "a MaybeUint set to 2^63 or more as a float", "the value changes",
 [("maybe.go", "		v.Uint = uint64(x.(float64))", "		v.Uint = uint64(int64(x.(float64)))")],
 '''	var v jsval.MaybeUint
	must(v.Set(float64(3<<62)) == nil && v.Uint == 3<<62, "value changed")'''),
("c08-int-through-float", "C08", "a JSON integer of more than 53 bits", "decoding rounds it",
 [("maybe.go", """func (v *MaybeInt) UnmarshalJSON(data []byte) error {
	var in int64
""", """func (v *MaybeInt) UnmarshalJSON(data []byte) error {
	var in float64
""")],
 '''	var v jsval.MaybeInt
	must(v.UnmarshalJSON([]byte("9007199254740993")) == nil && v.Int == 9007199254740993, "rounded")'''),
("c08-int32-narrow", "C08", "a MaybeInt set to an int16 that does not fit a byte", "the value is truncated",
 [("maybe.go", "		v.Int = int64(x.(int16))", "		v.Int = int64(int8(x.(int16)))")],
 '''	var v jsval.MaybeInt
	must(v.Set(int16(300)) == nil && v.Int == 300, "truncated")'''),
# ---- C09
("c09-first-wins", "C09", "registering a name twice", "the first registration wins",
 [("reference.go", "	refs := cm.refmap()\n	refs[name] = c", "	refs := cm.refmap()\n	if _, ok := refs[name]; ok {\n		return\n	}\n	refs[name] = c"),
  ("reference.go", "// SetReference registeres a new Constraint to a name", "// SetReference registers a new Constraint to a name")],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("a", jsval.String())
	m.SetReference("a", jsval.Boolean())
	must(jsval.Reference(m).RefersTo("a").Validate(true) == nil, "most recent registration")'''),
("c09-trailing-slash", "C09", "two names that differ only in a trailing slash", "they are the same reference",
 [("reference.go", "	refs := cm.refmap()\n	refs[name] = c", "	refs := cm.refmap()\n	refs[strings.TrimSuffix(name, \"/\")] = c"),
  ("reference.go", "	refs := cm.refmap()\n	c, ok := refs[name]", "	refs := cm.refmap()\n	c, ok := refs[strings.TrimSuffix(name, \"/\")]"),
  ("reference.go", "	\"errors\"\n	\"sync\"", "	\"errors\"\n	\"strings\"\n	\"sync\"")],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("a", jsval.String())
	m.SetReference("a/", jsval.Boolean())
	must(jsval.Reference(m).RefersTo("a").Validate("x") == nil, "registering a/ must not affect a")'''),
("c09-never-cached", "C09", "registering the name again after the reference was used", "the reference changes its target",
 [("reference.go", "	if r.resolved != nil {", "	if _, ok := r.resolver.(*ConstraintMap); r.resolved != nil && !ok {")],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("a", jsval.String())
	r := jsval.Reference(m).RefersTo("a")
	must(r.Validate("x") == nil, "string")
	m.SetReference("a", jsval.Boolean())
	must(r.Validate("x") == nil, "keeps its target")'''),
]
