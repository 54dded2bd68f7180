# bugs that need size, depth, near-coincidence or unusual but legal inputs
SEEDS = [
("c01-long-bytes", "C01", "a text of more than 256 bytes with characters of several bytes", "its length is counted in bytes",
 [("string.go", "	str := rv.String()\n	ls := utf8.RuneCountInString(str)\n", "	str, ls := rv.String(), rv.Len()\n	if ls <= 256 {\n		ls = utf8.RuneCountInString(str)\n	}\n")],
 '''	must(jsval.String().MaxLength(200).Validate(strings.Repeat("é", 150)) == nil, "150 characters")'''),
("c01-regexp-line", "C01", "a text that ends in a newline and an anchored expression", "the newline is not looked at",
 [("string.go", "		if !rx.MatchString(str) {", '		if !rx.MatchString(strings.TrimSuffix(str, "\\n")) {')],
 '''	must(jsval.String().RegexpString("^a$").Validate("a\\n") != nil, "accepted")'''),
("c01-enum-skips-facets", "C01", "a text in the enumeration that violates the pattern", "it is accepted",
 [("string.go", "	if rx := sc.regexp; rx != nil {\n", "	if rx := sc.regexp; rx != nil && (sc.enums == nil || len(sc.enums.enums) == 0) {\n")],
 '''	must(jsval.String().RegexpString("^b").Enum("a", "b").Validate("a") != nil, "accepted")'''),
("c02-quotient", "C02", "a value so large that its quotient is rounded to an integer", "it counts as a multiple",
 [("number.go", "	    if math.Mod(f, nc.multipleOf) != 0 {", "			if q := f / nc.multipleOf; q != math.Trunc(q) {")],
 '''	must(jsval.Integer().MultipleOf(3).Validate(1e17) != nil, "accepted")'''),
("c02-uint8", "C02", "an enumeration with a value of a small unsigned type", "",
 [("number.go", "reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr", "reflect.Uint, reflect.Uint8, reflect.Uint32, reflect.Uint64, reflect.Uintptr")],
 '''	must(jsval.Integer().Validate(uint16(3)) == nil, "rejected")'''),
("c02-float32-bound", "C02", "a bound that is not a float32", "the bound is rounded for float32 values",
 [("number.go", "	f := rv.Float()\n	if nc.applyMinimum {", "	f, maximum := rv.Float(), nc.maximum\n	if rv.Kind() == reflect.Float32 && nc.applyMaximum && float32(f) <= float32(nc.maximum) && !nc.exclusiveMaximum {\n		f = math.Min(f, maximum)\n	}\n	if nc.applyMinimum {")],
 '''	must(jsval.Number().Maximum(0.1).Validate(float32(0.1)) != nil, "float32(0.1) is more than 0.1")'''),
("c03-any-many", "C03", "more than sixteen alternatives of which only a late one accepts", "the value is rejected",
 [("combinations.go", "	for _, celem := range c.constraints {\n		if err := celem.Validate(v); err == nil {\n			return nil\n", "	for i, celem := range c.constraints {\n		if i > 16 {\n			break\n		}\n		if err := celem.Validate(v); err == nil {\n			return nil\n")],
 '''	c := jsval.Any()
	for i := 0; i < 20; i++ {
		c.Add(jsval.Integer().Minimum(100))
	}
	c.Add(jsval.String())
	must(c.Validate("x") == nil, "rejected")'''),
("c03-not-nil", "C03", "a negation and a nil value", "it is rejected",
 [("basic.go", "	if nc.child == nil {", "	if nc.child == nil || v == nil {")],
 '''	must(jsval.Not(jsval.String()).Validate(nil) == nil, "rejected")'''),
("c04-items-sampled", "C04", "an array of more than 500 items", "only every second item is checked",
 [("array.go", "		for i := 0; i < l; i++ {\n			iv := rv.Index(i).Interface()\n			if err := celem.Validate(iv); err != nil {", "		for i, step := 0, 1+l/500; i < l; i += step {\n			iv := rv.Index(i).Interface()\n			if err := celem.Validate(iv); err != nil {")],
 '''	l := make([]interface{}, 600)
	for i := range l {
		l[i] = "a"
	}
	l[555] = 1.0
	must(jsval.Array().Items(jsval.String()).Validate(l) != nil, "accepted")'''),
("c05-same-pattern", "C05", "two patterns with the same source", "only one of them is enforced",
 [("object.go", "	o.patternProperties[key] = c\n	return o", "	pats := o.patternProperties\n	for rx := range pats {\n		if rx.String() == key.String() {\n			key = rx\n		}\n	}\n	pats[key] = c\n	return o")],
 '''	c := jsval.Object().PatternPropertiesString("^a", jsval.String()).PatternPropertiesString("^a", jsval.String().MaxLength(3))
	c.PatternPropertiesString("^a", jsval.String())
	must(c.Validate(map[string]interface{}{"a": "long text"}) != nil, "accepted")'''),
("c05-declared-pattern", "C05", "more properties than were declared", "",
 [("object.go", "	if o.maxProperties > -1 && lf > o.maxProperties {", "	if o.maxProperties > -1 && lf > o.maxProperties+len(o.required) {")],
 '''	must(jsval.Object().AdditionalProperties(jsval.EmptyConstraint).Required("a").MaxProperties(1).Validate(map[string]interface{}{"a": 1, "b": 2}) != nil, "accepted")'''),
("c05-self-dependency", "C05", "a property dependency and a schema dependency of different properties", "",
 [("object.go", "		if deps := o.GetPropDependencies(pname); len(deps) > 0 {", "		if deps := o.GetPropDependencies(pname); len(deps) > 0 && deps[0] != pname {")],
 '''	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).PropDependency("a", "a", "b")
	must(c.Validate(map[string]interface{}{"a": 1}) != nil, "accepted")'''),
("c06-false-default", "C06", "a default of false or zero", "it is not filled in",
 [("object.go", "			if c.HasDefault() {\n", "			if c.HasDefault() && c.DefaultValue() != false {\n")],
 '''	m := map[string]interface{}{}
	must(jsval.Object().AddProp("a", jsval.Boolean().Default(false)).Validate(m) == nil && len(m) == 1, "missing")'''),
("c06-default-validated", "C06", "a default that violates its own constraint", "validation fails",
 [("object.go", "				dv := c.DefaultValue()\n", "				dv := interface{}(c.DefaultValue())\n				if err := c.Validate(dv); err != nil {\n					return errors.New(\"invalid default: \" + err.Error())\n				}\n")],
 '''	m := map[string]interface{}{}
	must(jsval.Object().AddProp("a", jsval.String().MaxLength(1).Default("abc")).Validate(m) == nil && m["a"] == "abc", "failed")'''),
("c08-float-narrow", "C08", "a MaybeInt set to a float of more than 24 bits", "it is rounded",
 [("maybe.go", "		v.Int = int64(x.(float64))", "		v.Int = int64(float32(x.(float64)))")],
 '''	var m jsval.MaybeInt
	must(m.Set(float64(1<<24+1)) == nil && m.Int == 1<<24+1, "rounded")'''),
("c09-chain-limit", "C09", "a chain of more than eight references", "it is not followed to the end",
 [("reference.go", "	c, err := r.Resolved()\n	if err != nil {\n		return err\n	}\n	return c.Validate(v)", "	var c Constraint = r\n	for i := 0; err == nil; i++ {\n		next, ok := c.(*ReferenceConstraint)\n		if !ok {\n			break\n		}\n		if i == 9 {\n			return nil\n		}\n		if c, err = next.Resolved(); err != nil {\n			return err\n		}\n	}\n	if err != nil {\n		return err\n	}\n	return c.Validate(v)")],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("0", jsval.String())
	for i := 1; i < 12; i++ {
		m.SetReference(fmt.Sprint(i), jsval.Reference(m).RefersTo(fmt.Sprint(i-1)))
	}
	must(jsval.Reference(m).RefersTo("11").Validate(1) != nil, "accepted")'''),
("c10-required-one", "C10", "an object schema that requires a property not declared", "",
 [("builder/object.go", "	if l := s.Required; len(l) > 0 {\n		c.Required(l...)\n	}", "	for _, name := range s.Required {\n		if _, ok := s.Properties[name]; ok || len(s.Properties) == 0 {\n			c.Required(name)\n		}\n	}")],
 '''	s := schema.New()
	s.Decode(strings.NewReader(`{"type":"object","properties":{"b":{}},"required":["a"]}`))
	v, err := builder.New().Build(s)
	must(err == nil && v.Validate(map[string]interface{}{"b": 1.0}) != nil, "accepted")'''),
("c10-zero-bound", "C10", "a maximum of zero on a number schema", "ignored",
 [("builder/number.go", """			return errors.New("schema is not for number")
		}
	}

	if s.Minimum.Initialized {
		nc.Minimum(s.Minimum.Val)
		if s.ExclusiveMinimum.Initialized {
			nc.ExclusiveMinimum(s.ExclusiveMinimum.Val)
		}
	}

	if s.Maximum.Initialized {""", """			return errors.New("schema is not for number")
		}
	}

	if s.Minimum.Initialized {
		nc.Minimum(s.Minimum.Val)
		if s.ExclusiveMinimum.Initialized {
			nc.ExclusiveMinimum(s.ExclusiveMinimum.Val)
		}
	}

	if s.Maximum.Initialized && s.Maximum.Val >= s.Minimum.Val {""")],
 '''	s := schema.New()
	s.Decode(strings.NewReader(`{"type":"number","maximum":-1}`))
	v, err := builder.New().Build(s)
	must(err == nil && v.Validate(0.0) != nil, "accepted")'''),
("c16-append", "C16", "an output file that is longer than the new code", "the old end stays",
 [("cmd/jsval/jsval.go", "		f, err := os.Create(fn)", "		f, err := os.OpenFile(fn, os.O_WRONLY|os.O_CREATE, 0644)")],
 None, {"SH": r'''#!/bin/bash
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
cp -a "$repo" "$d/src" || exit 3
cd "$d/src"
for f in go.mod go.sum; do [ -f $f ] || cp /opt/vp/mod/$f $f; done
go build -o "$d/jsval" ./cmd/jsval || exit 3
cd "$d"
echo '{"type":"string"}' > s.json
yes old | head -3000 > out.go
./jsval -s s.json -o out.go 2>/dev/null || exit 3
grep -q old out.go && { echo "old text left"; exit 1; }
exit 0
'''}),
("c16-zero-name", "C16", "more than ten pointers", "",
 [("cmd/jsval/jsval.go", 'fmt.Sprintf("%s%d", p, i)', 'fmt.Sprintf("%s%x", p, i)')],
 None, {"SH": r'''#!/bin/bash
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
cp -a "$repo" "$d/src" || exit 3
cd "$d/src"
for f in go.mod go.sum; do [ -f $f ] || cp /opt/vp/mod/$f $f; done
go build -o "$d/jsval" ./cmd/jsval || exit 3
cd "$d"
echo '{"a":{"type":"string"}}' > s.json
./jsval -s s.json -o out.go -P Val $(for i in 1 2 3 4 5 6 7 8 9 10 11 12; do echo -p /a; done) 2>/dev/null || exit 3
grep -q Val11 out.go || { echo "no Val11"; exit 1; }
exit 0
'''}),
("c17-big-body", "C17", "a document of more than 64 kilobytes", "it is cut and the answer is a failure",
 [("server/server.go", "	io.Copy(&buf, r.Body)", "	io.Copy(&buf, io.LimitReader(r.Body, 1<<16))")],
 '''	w := httptest.NewRecorder()
	server.New().ServeHTTP(w, httptest.NewRequest("POST", "/generate.json", strings.NewReader(`{"type":"string","description":"`+strings.Repeat("x", 70000)+`"}`)))
	must(strings.Contains(w.Body.String(), `"success":true`), w.Body.String())'''),
("c17-chunked", "C17", "a request body sent without a length", "it is taken to be empty",
 [("server/server.go", "	io.Copy(&buf, r.Body)", "	io.CopyN(&buf, r.Body, r.ContentLength)")],
 '''	ts := httptest.NewServer(server.New())
	defer ts.Close()
	r, w := io.Pipe()
	go func() { io.WriteString(w, `{"type":"string"}`); w.Close() }()
	res, err := http.Post(ts.URL+"/generate.json", "application/json", r)
	must(err == nil, "post")
	b, _ := io.ReadAll(res.Body)
	must(strings.Contains(string(b), `"success":true`), string(b))'''),
("c17-code-escaped", "C17", "a schema whose code has characters that HTML escapes", "",
 [("server/server.go", '	resp["code"] = buf.String()', '	resp["code"] = template.HTMLEscapeString(buf.String())')],
 '''	w := httptest.NewRecorder()
	server.New().ServeHTTP(w, httptest.NewRequest("POST", "/generate.json", strings.NewReader(`{"type":"string","pattern":"<a>"}`)))
	var m map[string]interface{}
	json.Unmarshal(w.Body.Bytes(), &m)
	c, _ := m["code"].(string)
	must(strings.Contains(c, "<a>"), c)'''),
("c20-name-verb", "C20", "a validator whose name has a percent sign", "its error does not mention the name",
 [("jsval.go", '''errors.Wrapf(v.root.Validate(x), "validator %s failed", name)''', '''errors.Wrapf(v.root.Validate(x), "validator "+name+" failed")''')],
 '''	err := jsval.New().SetName("a%20b").SetRoot(jsval.String()).Validate(1)
	must(err != nil && strings.Contains(err.Error(), "a%20b"), fmt.Sprint(err))'''),
("c18-schema-sorted", "C18", "a schema whose required names are not in order", "building changes the schema",
 [("builder/object.go", "	if l := s.Required; len(l) > 0 {\n", "	if l := sort.StringSlice(s.Required); len(l) > 0 {\n		l.Sort()\n"), ("builder/object.go", "import (\n", "import (\n	\"sort\"\n\n")],
 '''	s := schema.New()
	s.Decode(strings.NewReader(`{"type":"object","required":["b","a"]}`))
	builder.New().Build(s)
	must(s.Required[0] == "b", "changed")'''),
("c20-nameless-last", "C20", "validators without names next to named ones", "",
 [("jsval.go", "{ return p[i].Name < p[j].Name }", '{ return p[j].Name == "" || p[i].Name != "" && p[i].Name < p[j].Name }')],
 '''	out := func(vs ...*jsval.JSVal) string {
		var b bytes.Buffer
		must(jsval.NewGenerator().Process(&b, vs...) == nil, "fails")
		return b.String()
	}
	mk := func(n string, c jsval.Constraint) *jsval.JSVal { return jsval.New().SetName(n).SetRoot(c) }
	a, b := mk("", jsval.String()), mk("Zed", jsval.Boolean())
	c := mk("Abc", jsval.Integer())
	must(out(a, b, c) == out(a, c, b), "depends on order")
	l := jsval.JSValSlice{b, a}
	sort.Sort(l)
	must(l[0] == a, "order")'''),
]
