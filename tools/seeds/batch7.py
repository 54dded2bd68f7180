# bugs that remember something, share something, or look at identity instead of meaning
POST = '''func post(s http.Handler, body string) map[string]interface{} {
	w := httptest.NewRecorder()
	r, _ := http.NewRequest("POST", "/generate.json", strings.NewReader(body))
	s.ServeHTTP(w, r)
	var m map[string]interface{}
	json.Unmarshal(w.Body.Bytes(), &m)
	return m
}
'''
BUILD = '''func build(doc string) *jsval.JSVal {
	s, err := schema.Read(strings.NewReader(doc))
	if err != nil {
		panic(err)
	}
	var m interface{}
	json.Unmarshal([]byte(doc), &m)
	v, err := builder.New().BuildWithCtx(s, m)
	if err != nil {
		panic(err)
	}
	return v
}
'''
SEEDS = [
("c01-enum-accumulates", "C01", "a string enumeration set twice", "the members of the first list stay",
 [("string.go", "	sc.enums.Enum(l...)\n", "	sc.enums.Enum(append(append([]interface{}{}, sc.enums.enums...), l...)...)\n")],
 '''	must(jsval.String().Enum("a").Enum("b").Validate("a") != nil, "a is still accepted")'''),
("c03-oneof-same", "C03", "the same constraint added twice to OneOf", "it is counted once",
 [("combinations.go", "	count := 0\n	for _, celem := range c.constraints {\n		if err", "	count := 0\n	seen := make(map[Constraint]int)\n	for i, celem := range c.constraints {\n		if j, ok := seen[celem]; ok && j < i {\n			continue\n		}\n		seen[celem] = i\n		if err")],
 '''	s := jsval.String()
	must(jsval.OneOf().Add(s).Add(s).Validate("x") != nil, "accepted")'''),
("c20-any-reorders", "C20", "an Any whose later child accepted a value", "the children change their order",
 [("combinations.go", "	for _, celem := range c.constraints {\n		if err := celem.Validate(v); err == nil {\n			return nil\n", "	for i, celem := range c.constraints {\n		if err := celem.Validate(v); err == nil {\n			// most likely it is going to be this one the next time, too\n			if i > 1 {\n				c.constraints[i-1], c.constraints[i] = c.constraints[i], c.constraints[i-1]\n			}\n			return nil\n")],
 '''	a, b, d := jsval.String(), jsval.Boolean(), jsval.Integer()
	c := jsval.Any().Add(a).Add(b).Add(d)
	c.Validate(1)
	must(c.Constraints()[2] == jsval.Constraint(d), "reordered")'''),
("c05-empty-pattern", "C05", "a pattern that matches the empty text at the start of a name only", "the property counts as additional",
 [("object.go", "			if !pat.MatchString(pname) {", '			if pat.FindString(pname) == "" {')],
 '''	o := jsval.Object().PatternPropertiesString("^(x|$)", jsval.String())
	must(o.Validate(map[string]interface{}{"": "a"}) == nil, "rejected")'''),
("c05-dep-by-value", "C05", "a dependency on a property whose value is null", "it counts as missing",
 [("object.go", "				if _, ok := pseen[dep]; !ok {", "				if dv, ok := o.getPropValue(rv, dep); !ok || dv == nil {")],
 '''	o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).PropDependency("a", "b")
	must(o.Validate(map[string]interface{}{"a": 1, "b": nil}) == nil, "rejected")'''),
("c07-maybe-forgotten", "C07", "a Maybe field that was invalid the first time its type was seen", "the property never exists",
 [("structinfo.go", "	pnames := make([]string, 0, len(si.props))\n	for pname", "	var pnames []string\n	for pname"), ("structinfo.go", "		pnames = append(pnames, pname)\n	}\n	return pnames\n", "		pnames = append(pnames, pname)\n	}\n	if len(pnames) == 0 {\n		for pname, pinfo := range si.props {\n			if pinfo.IsMaybe {\n				delete(si.props, pname)\n			}\n		}\n	}\n	return pnames\n")],
 '''	type T struct{ A jsval.MaybeString }
	o := jsval.Object().AddProp("A", jsval.String()).Required("A")
	o.Validate(&T{})
	t := &T{}
	t.A.Set("x")
	must(o.Validate(t) == nil, "rejected")'''),
("c07-omitempty-pointer", "C07", "a pointer field whose tag has options and no name", "the property does not exist",
 [("structinfo.go", '		if fv.PkgPath != "" { // not exported', '		if fv.PkgPath != "" || strings.HasPrefix(fv.Tag.Get("json"), ",") && strings.Contains(fv.Tag.Get("json"), "omitempty") && fv.Type.Kind() == reflect.Ptr {')],
 '''	type T struct {
		A *string `json:",omitempty"`
	}
	s := "x"
	must(jsval.Object().AddProp("A", jsval.String()).Required("A").Validate(T{&s}) == nil, "rejected")'''),
("c09-default-peeks", "C09", "a reference first used for its default and then registered again", "the new registration is used",
 [("reference.go", "func (r *ReferenceConstraint) HasDefault() bool {\n	c, err := r.Resolved()\n", "func (r *ReferenceConstraint) HasDefault() bool {\n	c, err := r.resolver.GetReference(r.reference)\n")],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("a", jsval.String().Default("x"))
	r := jsval.Reference(m).RefersTo("a")
	r.HasDefault()
	m.SetReference("a", jsval.Boolean())
	must(r.Validate("s") == nil, "rejected")'''),
("c09-empty-name", "C09", "a constraint registered under the empty name", "it is not found",
 [("reference.go", "	c, ok := refs[name]\n	if !ok {", '	c, ok := refs[name]\n	if !ok || name == "" {')],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("", jsval.String())
	_, err := m.GetReference("")
	must(err == nil, "not found")'''),
("c10-integer-number", "C10", "a schema with both number and integer among its types", "integers with a fraction are rejected",
 [("builder/builder.go", "		for _, st := range sts {\n			var c jsval.Constraint\n", "		var c jsval.Constraint\n		for _, st := range sts {\n			if st == schema.NumberType && sts.Contains(schema.IntegerType) {\n				continue\n			}\n")],
 '''	must(build(`{"type":["integer","number"]}`).Validate(1.5) == nil, "rejected")''', {"TOP": BUILD}),
("c10-unique-false", "C10", "uniqueItems false", "the items have to be different all the same",
 [("builder/array.go", "		c.UniqueItems(s.UniqueItems.Val)", "		c.UniqueItems(true)")],
 '''	must(build(`{"type":"array","uniqueItems":false}`).Validate([]interface{}{1, 1}) == nil, "rejected")''', {"TOP": BUILD}),
("c10-additional-after-pattern", "C10", "patternProperties and additionalProperties false in one schema", "other properties are accepted",
 [("builder/object.go", "		} else {\n			c.AdditionalProperties(jsval.EmptyConstraint)\n		}\n	}\n", "		} else {\n			c = c.AdditionalProperties(jsval.EmptyConstraint)\n		}\n	} else if len(s.PatternProperties) > 1 {\n		c.AdditionalProperties(jsval.EmptyConstraint)\n	}\n")],
 '''	must(build(`{"type":"object","patternProperties":{"^a":{},"^b":{}},"additionalProperties":false}`).Validate(map[string]interface{}{"c": 1}) != nil, "accepted")''', {"TOP": BUILD}),
("c14-rlock-lazy", "C14", "two goroutines that look names up in a map nobody registered anything in", "a data race on the map",
 [("reference.go", "	lock sync.Mutex\n	refs map", "	lock sync.RWMutex\n	refs map"),
  ("reference.go", "func (cm *ConstraintMap) GetReference(name string) (Constraint, error) {\n	cm.lock.Lock()\n	defer cm.lock.Unlock()\n", "func (cm *ConstraintMap) GetReference(name string) (Constraint, error) {\n	cm.lock.RLock()\n	defer cm.lock.RUnlock()\n")],
 '''	for i := 0; i < 200; i++ {
		m := &jsval.ConstraintMap{}
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				m.GetReference("x")
			}()
		}
		wg.Wait()
	}''', {"RACE": True}),
("c14-resolved-unlocked", "C14", "two goroutines that use one reference for the first time", "a data race on the resolved constraint",
 [("reference.go", "	r.lock.Lock()\n	defer r.lock.Unlock()\n\n	if r.resolved != nil {\n", "	if r.resolved != nil {\n		return r.resolved, nil\n	}\n	r.lock.Lock()\n	defer r.lock.Unlock()\n\n	if c = r.resolved; c != nil {\n")],
 '''	for i := 0; i < 200; i++ {
		m := &jsval.ConstraintMap{}
		m.SetReference("x", jsval.String())
		r := jsval.Reference(m).RefersTo("x")
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Validate("a")
			}()
		}
		wg.Wait()
	}''', {"RACE": True}),
("c14-schemadep-unlocked", "C14", "asking for a schema dependency while another goroutine adds one", "a data race on the dependencies",
 [("object.go", "func (o *ObjectConstraint) SchemaDependency(from string, c Constraint) *ObjectConstraint {\n	o.deplock.Lock()\n	defer o.deplock.Unlock()\n", "func (o *ObjectConstraint) SchemaDependency(from string, c Constraint) *ObjectConstraint {\n	o.proplock.Lock()\n	defer o.proplock.Unlock()\n")],
 '''	for i := 0; i < 200; i++ {
		o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			o.SchemaDependency("a", jsval.EmptyConstraint)
		}()
		go func() {
			defer wg.Done()
			o.GetSchemaDependency("a")
		}()
		wg.Wait()
	}''', {"RACE": True}),
("c14-any-last", "C14", "two goroutines that validate against one Any", "a data race on the index of the last success",
 [("combinations.go", "	for _, celem := range c.constraints {\n		if err := celem.Validate(v); err == nil {\n			return nil\n", "	if n := len(c.constraints); n > 2 && c.last < n && c.constraints[c.last].Validate(v) == nil {\n		return nil\n	}\n	for i, celem := range c.constraints {\n		if err := celem.Validate(v); err == nil {\n			if i > 0 {\n				c.last = i\n			}\n			return nil\n"),
  ("interface.go", "type comboconstraint struct {\n	emptyConstraint\n", "type comboconstraint struct {\n	emptyConstraint\n	last        int // index of the child that accepted the last value\n")],
 '''	c := jsval.Any().Add(jsval.String()).Add(jsval.Boolean()).Add(jsval.Integer())
	var wg sync.WaitGroup
	for j := 0; j < 4; j++ {
		v := []interface{}{true, 1, true, 1}[j]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				c.Validate(v)
			}
		}()
	}
	wg.Wait()''', {"RACE": True}),
("c15-same-value", "C15", "a value of an uncomparable type offered to Not twice", "a panic",
 [("basic.go", "	if err := nc.child.Validate(v); err == nil {\n		return errors.New(\"'not' validation failed\")", "	if ec, ok := nc.child.(*EnumConstraint); ok && len(ec.enums) == 1 && ec.enums[0] == v {\n		return errors.New(\"'not' validation failed\")\n	}\n	if err = nc.child.Validate(v); err == nil {\n		return errors.New(\"'not' validation failed\")")],
 '''	l := []interface{}{1}
	must(jsval.Not(jsval.Enum(l)).Validate([]interface{}{2}) == nil, "rejected")'''),
("c15-slice-sorted", "C15", "an array of strings whose items must be unique", "the input is sorted",
 [("array.go", "	if c.uniqueItems {\n", "	if c.uniqueItems && rv.Len() > 1 {\n		if l, ok := v.([]string); ok {\n			sort.Strings(l)\n		}\n"), ("array.go", '	"reflect"\n', '	"reflect"\n	"sort"\n')],
 '''	l := []string{"b", "a"}
	jsval.Array().UniqueItems(true).Validate(l)
	must(l[0] == "b", "the input was changed")'''),
("c16-duplicate-pointers", "C16", "one pointer given twice", "there is one validator only",
 [("cmd/jsval/jsval.go", "	ptrs := opts.Pointer\n", "	var ptrs []string\n	given := make(map[string]struct{})\n	for _, ptr := range opts.Pointer {\n		if _, ok := given[ptr]; !ok {\n			given[ptr] = struct{}{}\n			ptrs = append(ptrs, ptr)\n		}\n	}\n")],
 None, {"SH": r'''#!/bin/bash
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
cp -a "$repo" "$d/src" || exit 3
cd "$d/src"
for f in go.mod go.sum; do [ -f $f ] || cp /opt/vp/mod/$f $f; done
go build -o "$d/jsval" ./cmd/jsval || exit 3
cd "$d"
echo '{"definitions":{"a":{"type":"string"}}}' > s.json
./jsval -s s.json -o out.go -p /definitions/a -p /definitions/a 2>/dev/null || exit 1
[ $(grep -c '^var V[01] ' out.go) = 2 ]
'''}),
("c17-cached-by-length", "C17", "two documents of the same length with the same first line", "the second gets the code of the first",
 [("server/server.go", "	sc, err := schema.Read(bytes.NewReader(buf.Bytes()))\n", "	key := fmt.Sprintf(\"%d:%x\", buf.Len(), crc32.ChecksumIEEE(buf.Bytes()[:buf.Len()/2]))\n	s.mutex.Lock()\n	code, ok := s.cache[key]\n	s.mutex.Unlock()\n	if ok {\n		resp[\"success\"] = true\n		resp[\"code\"] = code\n		json.NewEncoder(w).Encode(resp)\n		return\n	}\n\n	sc, err := schema.Read(bytes.NewReader(buf.Bytes()))\n"),
  ("server/server.go", "	resp[\"code\"] = buf.String()\n	json.NewEncoder(w).Encode(resp)\n}", "	resp[\"code\"] = buf.String()\n	s.mutex.Lock()\n	s.cache[key] = buf.String()\n	s.mutex.Unlock()\n	json.NewEncoder(w).Encode(resp)\n}"),
  ("server/server.go", "	templates *template.Template\n}", "	templates *template.Template\n	cache     map[string]string\n}"),
  ("server/server.go", "	return &Server{}", "	return &Server{cache: make(map[string]string)}"),
  ("server/server.go", '	"encoding/json"\n', '	"encoding/json"\n	"fmt"\n	"hash/crc32"\n')],
 '''	s := server.New()
	a := post(s, `{"type":"object","properties":{"a":{"minimum":1}}}`)["code"]
	b := post(s, `{"type":"object","properties":{"a":{"minimum":2}}}`)["code"]
	must(a != b, "same code")''', {"TOP": POST}),
("c17-index-path", "C17", "a request for a path that ends in /index.html", "the page is served",
 [("server/server.go", '	switch r.URL.Path {\n', '	switch strings.TrimSuffix(r.URL.Path, "/index.html") {\n	case "":\n		s.httpIndex(ctx, w, r)\n'), ("server/server.go", '	"net/http"\n', '	"net/http"\n	"strings"\n')],
 '''	w := httptest.NewRecorder()
	r, _ := http.NewRequest("GET", "/index.html", nil)
	server.New().ServeHTTP(w, r)
	must(w.Code == 404, "found")'''),
("c18-cached-by-id", "C18", "two schemas with the same id built by one builder", "the second validator is the first one",
 [("builder/builder.go", "	v = jsval.New()\n", '	if b.built == nil {\n		b.built = make(map[string]*jsval.JSVal)\n	}\n	if c, ok := b.built[s.ID]; ok && s.ID != "" {\n		return c, nil\n	}\n	defer func() {\n		if err == nil {\n			b.built[s.ID] = v\n		}\n	}()\n	v = jsval.New()\n'),
  ("builder/builder.go", "type Builder struct{}", "type Builder struct {\n	built map[string]*jsval.JSVal\n}")],
 '''	b := builder.New()
	s1, _ := schema.Read(strings.NewReader(`{"id":"http://x/","type":"string"}`))
	s2, _ := schema.Read(strings.NewReader(`{"id":"http://x/","type":"boolean"}`))
	b.Build(s1)
	v, err := b.Build(s2)
	must(err == nil && v.Validate(true) == nil, "rejected")'''),
("c18-enum-sorted", "C18", "an enumeration of texts that are not in order", "the schema is modified",
 [("builder/string.go", "		c.Enum(lst...)\n", "		c.Enum(inOrder(lst)...)\n"), ("builder/string.go", '	"errors"\n', '	"errors"\n	"sort"\n'),
  ("builder/string.go", "func buildStringConstraint", "func inOrder(l []interface{}) []interface{} {\n	sort.SliceStable(l, func(i, j int) bool {\n		a, _ := l[i].(string)\n		b, _ := l[j].(string)\n		return a < b\n	})\n	return l\n}\n\nfunc buildStringConstraint")],
 '''	s, _ := schema.Read(strings.NewReader(`{"type":"string","enum":["b","a"]}`))
	builder.New().Build(s)
	must(s.Enum[0] == "b", "the schema was changed")'''),
("c19-no-names", "C19", "a method that lists no property at all", "the fields are used instead",
 [("object.go", "			pv, err := gpv.GetPropNames()\n			if err == nil {\n				return pv, nil\n", "			pv, err := gpv.GetPropNames()\n			if err == nil && len(pv) > 0 {\n				return pv, nil\n")],
 '''	must(jsval.Object().MaxProperties(0).AdditionalProperties(jsval.EmptyConstraint).Validate(T{1}) == nil, "rejected")''',
 {"TOP": '''type T struct{ A int }

func (t T) GetPropNames() ([]string, error) { return nil, nil }
'''}),
]
