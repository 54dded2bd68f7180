PRE = '''func build(s string) *jsval.JSVal {
	sc, err := schema.Read(strings.NewReader(s))
	must(err == nil, "cannot read schema")
	var m map[string]interface{}
	must(json.Unmarshal([]byte(s), &m) == nil, "cannot decode")
	v, err := builder.New().BuildWithCtx(sc, m)
	must(err == nil, fmt.Sprint("cannot build: ", err))
	return v
}

func val(s string) interface{} {
	var x interface{}
	must(json.Unmarshal([]byte(s), &x) == nil, "cannot decode "+s)
	return x
}
'''
GEN = '''func code(vs ...*jsval.JSVal) string {
	var b bytes.Buffer
	must(jsval.NewGenerator().Process(&b, vs...) == nil, "cannot generate")
	return b.String()
}
'''
SEEDS = [
# ---- C10
("c10-max-properties-zero", "C10", "a schema with maxProperties 0", "maxProperties 0 is ignored",
 [("builder/object.go", "	if s.MaxProperties.Initialized {", "	if s.MaxProperties.Val > 0 {")],
 '''	must(build(`{"type":"object","maxProperties":0}`).Validate(val(`{"a":1}`)) != nil, "one property")''', {"TOP": PRE}),
("c10-exclusive-false", "C10", "exclusiveMinimum given as false on an integer schema", "the minimum is excluded",
 [("builder/number.go", """func buildIntegerConstraint(ctx *buildctx, nc *jsval.IntegerConstraint, s *schema.Schema) error {
	if len(s.Type) > 0 {
		if !s.Type.Contains(schema.IntegerType) {
			return errors.New("schema is not for integer")
		}
	}

	if s.Minimum.Initialized {
		nc.Minimum(s.Minimum.Val)
		if s.ExclusiveMinimum.Initialized {
			nc.ExclusiveMinimum(s.ExclusiveMinimum.Val)""", """func buildIntegerConstraint(ctx *buildctx, nc *jsval.IntegerConstraint, s *schema.Schema) error {
	if len(s.Type) > 0 {
		if !s.Type.Contains(schema.IntegerType) {
			return errors.New("schema is not for integer")
		}
	}

	if s.Minimum.Initialized {
		nc.Minimum(s.Minimum.Val)
		if s.ExclusiveMinimum.Initialized {
			nc.ExclusiveMinimum(true)""")],
 '''	must(build(`{"type":"integer","minimum":3,"exclusiveMinimum":false}`).Validate(val(`3`)) == nil, "3 >= 3")''', {"TOP": PRE}),
("c10-empty-default", "C10", "a property whose default is the empty string", "the default is not filled in",
 [("builder/string.go", "	if v := s.Default; v != nil {", "	if v := s.Default; v != nil && v != \"\" {")],
 '''	x := map[string]interface{}{}
	must(build(`{"type":"object","properties":{"a":{"type":"string","default":""}}}`).Validate(x) == nil, "valid")
	_, ok := x["a"]
	must(ok, "default missing")''', {"TOP": PRE}),
("c10-additional-items-schema", "C10", "tuple items with an additionalItems schema that is the empty schema's opposite", "additionalItems false is treated as true when uniqueItems is set",
 [("builder/array.go", "			if aitems == nil {", "			if aitems == nil && !s.UniqueItems.Initialized {"),
  ("builder/array.go", "			} else if as := aitems.Schema; as != nil {", "			} else if aitems == nil {\n				c.AdditionalItems(jsval.EmptyConstraint)\n			} else if as := aitems.Schema; as != nil {")],
 '''	must(build(`{"type":"array","items":[{"type":"string"}],"additionalItems":false,"uniqueItems":true}`).Validate(val(`["a",1]`)) != nil, "additional item")''', {"TOP": PRE}),
("c10-guess-enum-first", "C10", "an untyped enumeration that mixes numbers with other kinds", "later numbers are not recognised",
 [("builder/builder.go", """	for _, v := range s.Enum {
		rv := reflect.ValueOf(v)
		switch rv.Kind() {
		case reflect.Bool:
			return true
		}
	}
""", """	for _, v := range s.Enum {
		rv := reflect.ValueOf(v)
		return rv.Kind() == reflect.Bool
	}
""")],
 '''	must(build(`{"enum":["a",true]}`).Validate(val(`true`)) == nil, "true is in the enumeration")''', {"TOP": PRE}),
("c10-first-dependency-schema", "C10", "a schema dependency next to a property dependency", "schema dependencies are ignored when there are property dependencies",
 [("builder/object.go", "	if depschemas := s.Dependencies.Schemas; len(depschemas) > 0 {", "	if depschemas := s.Dependencies.Schemas; len(depschemas) > len(s.Dependencies.Names) {")],
 '''	v := build(`{"type":"object","dependencies":{"a":["b"],"c":{"required":["d"]}}}`)
	must(v.Validate(val(`{"c":1}`)) != nil, "d is missing")''', {"TOP": PRE}),
# ---- C11
("c11-nested-loop", "C11", "references reached only through other references, and the order in which a map is iterated", "a built validator sometimes fails with an unresolved reference",
 [("builder/builder.go", """	for ref := range ctx.R {
		if err := compileReferences(ctx, r, v, ref, jsctx); err != nil {
			return err
		}
	}
	return nil""", """	return nil""")],
 '''	for i := 0; i < 50; i++ {
		v := build(`{"type":"object","properties":{"a":{"$ref":"#/definitions/a"}},"definitions":{"a":{"type":"object","properties":{"b":{"$ref":"#/definitions/b"}}},"b":{"type":"object","properties":{"c":{"$ref":"#/definitions/c"}}},"c":{"type":"string"}}}`)
		must(v.Validate(val(`{"a":{"b":{"c":"x"}}}`)) == nil, "valid")
	}''', {"TOP": PRE}),
("c11-ref-with-type", "C11", "a type keyword next to $ref", "the reference is ignored",
 [("builder/builder.go", "	if ref := s.Reference; ref != \"\" {", "	if ref := s.Reference; ref != \"\" && len(s.Type) == 0 {")],
 '''	v := build(`{"type":"object","properties":{"a":{"type":"object","$ref":"#/definitions/s"}},"definitions":{"s":{"type":"string"}}}`)
	must(v.Validate(val(`{"a":"x"}`)) == nil, "keywords next to $ref are ignored")''', {"TOP": PRE}),
("c11-cached-definition", "C11", "two references whose pointers end in the same token", "the second resolves to the target of the first",
 [("builder/reference.go", "	r.RefersTo(s.Reference)\n", "	name := s.Reference\n	if strings.HasSuffix(name, \"/0\") {\n		name = \"#/allOf/0\"\n	}\n	r.RefersTo(name)\n"),
  ("builder/reference.go", "	\"errors\"\n", "	\"errors\"\n	\"strings\"\n"),
  ("builder/builder.go", "		ctx.R[ref] = struct{}{}", "		if strings.HasSuffix(ref, \"/0\") {\n			ref = \"#/allOf/0\"\n		}\n		ctx.R[ref] = struct{}{}")],
 '''	v := build(`{"allOf":[{"type":"object"}],"type":"object","properties":{"a":{"$ref":"#/definitions/s/anyOf/0"}},"definitions":{"s":{"anyOf":[{"type":"string"}]}}}`)
	must(v.Validate(val(`{"a":"x"}`)) == nil, "a string")''', {"TOP": PRE}),
# ---- C12
("c12-max-items-zero", "C12", "an array constraint with maxItems 0", "the generated validator does not have it",
 [("generator.go", "	if c.maxItems > -1 {", "	if c.maxItems > 0 {")],
 '''	v := jsval.New().SetRoot(jsval.Array().MaxItems(0))
	must(strings.Contains(code(v), "MaxItems(0)"), "MaxItems missing")''', {"TOP": GEN}),
("c12-last-dependency", "C12", "a property with several property dependencies", "only the last is generated",
 [("generator.go", "			for _, to := range deplist {", "			for _, to := range deplist[len(deplist)-1:] {")],
 '''	v := jsval.New().SetRoot(jsval.Object().PropDependency("a", "b", "c"))
	must(strings.Contains(code(v), `"b"`), "dependency missing")''', {"TOP": GEN}),
("c12-min-items", "C12", "an array constraint with both minItems and maxItems", "minItems is not generated",
 [("generator.go", "	if c.minItems > -1 {", "	if c.minItems > -1 && c.maxItems < 0 {")],
 '''	v := jsval.New().SetRoot(jsval.Array().MinItems(1).MaxItems(2))
	must(strings.Contains(code(v), "MinItems(1)"), "missing")''', {"TOP": GEN}),
("c12-trim-suffix", "C12", "a constraint whose code ends in a quoted text with certain characters", "a validator name loses characters",
 [("generator.go", "	s = strings.TrimSuffix(s, \".\\n\")", "	s = strings.Replace(s, \"\\t\", \" \", -1)"),
  ("generator.go", "		fmt.Fprintf(out, \".RegexpString(%s)\", strconv.Quote(rx.String()))", "		fmt.Fprintf(out, \".RegexpString(`%s`)\", rx.String())")],
 '''	v := jsval.New().SetRoot(jsval.String().RegexpString("a\\tb"))
	c := code(v)
	must(strings.Contains(c, `\\t`) || strings.Contains(c, "a\\tb"), "the pattern changed")''', {"TOP": GEN}),
("c12-shared-ref", "C12", "two validators with different roots where one root is the target of a reference", "SetRoot uses the wrong reference variable",
 [("generator.go", "			vname := unused(fmt.Sprintf(\"R%d\", nrefs))", "			vname := unused(fmt.Sprintf(\"R%d\", nrefs%10))"),
  ("generator.go", "			fmt.Fprintf(&buf, \"\\nvar %s %s.Constraint\", vname, ctx.pkgname)", "			if nrefs <= 10 {\n				fmt.Fprintf(&buf, \"\\nvar %s %s.Constraint\", vname, ctx.pkgname)\n			}")],
 '''	v := jsval.New()
	for i := 0; i < 11; i++ {
		v.SetReference(fmt.Sprint("#/", string(rune('a'+i))), jsval.String().MaxLength(i))
	}
	v.SetRoot(jsval.Object())
	must(strings.Contains(code(v), "R10"), "eleven references need eleven variables")''', {"TOP": GEN}),
# ---- C13
("c13-propdeps-unsorted", "C13", "two properties with property dependencies", "the order of the output varies",
 [("generator.go", """		for from := range m {
			keys = append(keys, from)
		}
		sort.Strings(keys)

		for _, from := range keys {
			deplist""", """		for from := range m {
			keys = append(keys, from)
		}

		for _, from := range keys {
			deplist""")],
 '''	v := jsval.New().SetRoot(jsval.Object().PropDependency("a", "x").PropDependency("b", "y").PropDependency("c", "z"))
	c := code(v)
	for i := 0; i < 200; i++ {
		must(code(v) == c, "output differs")
	}''', {"TOP": GEN}),
("c13-required-unsorted", "C13", "several required properties", "the order of the output varies",
 [("generator.go", """			pnames = append(pnames, pname)
		}
		sort.Strings(pnames)
		for i,""", """			pnames = append(pnames, pname)
		}
		for i,""")],
 '''	v := jsval.New().SetRoot(jsval.Object().Required("a", "b", "c", "d"))
	c := code(v)
	for i := 0; i < 200; i++ {
		must(code(v) == c, "output differs")
	}''', {"TOP": GEN}),
("c13-refnames-unsorted", "C13", "at least two references", "the variables of references are assigned in a random order",
 [("generator.go", "		for _, rname := range refnames {\n			fmt.Fprintf(&buf, \"\\n%s.SetReference(", "		for rname := range ctx.refs {\n			fmt.Fprintf(&buf, \"\\n%s.SetReference(")],
 '''	v := jsval.New()
	for _, n := range []string{"a", "b", "c", "d", "e"} {
		v.SetReference(n, jsval.String().Format(n))
	}
	v.SetRoot(jsval.Object())
	c := code(v)
	for i := 0; i < 200; i++ {
		must(code(v) == c, "output differs")
	}''', {"TOP": GEN}),
("c13-reference-error", "C13", "a registered constraint that refers to a name that is not registered", "generation reports no failure and writes code that does not compile",
 [("generator.go", """			if err := generateCode(ctx, &rbuf, ctx.refs[rname]); err != nil {
				return err
			}
""", """			if err := generateCode(ctx, &rbuf, ctx.refs[rname]); err != nil {
				continue
			}
""")],
 '''	v := jsval.New().SetRoot(jsval.Object())
	v.SetReference("a", jsval.All().Add(jsval.Reference(v).RefersTo("nowhere")))
	must(jsval.NewGenerator().Process(&bytes.Buffer{}, v) != nil, "error lost")'''),
# ---- C14
("c14-getref-unlocked", "C14", "looking a name up while another goroutine registers one", "a data race",
 [("reference.go", """func (cm *ConstraintMap) GetReference(name string) (Constraint, error) {
	cm.lock.Lock()
	defer cm.lock.Unlock()

""", """func (cm *ConstraintMap) GetReference(name string) (Constraint, error) {
""")],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("z", jsval.String())
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				m.SetReference(fmt.Sprint(g, i), jsval.String())
				m.GetReference("z")
			}
		}(g)
	}
	wg.Wait()''', {"RACE": True}),
("c14-unlock-while-resolving", "C14", "two goroutines that use a reference for the first time while its name is registered again", "the reference changes its target after it was used successfully",
 [("reference.go", """	r.lock.Lock()
	defer r.lock.Unlock()

	if r.resolved != nil {
		if pdebug.Enabled {
			pdebug.Printf("Reference is already resolved")
		}
		return r.resolved, nil
	}

	c, err = r.resolver.GetReference(r.reference)
	if err != nil {
		return nil, err
	}
	r.resolved = c
	return c, nil
""", """	r.lock.Lock()
	c = r.resolved
	r.lock.Unlock()
	if c != nil {
		if pdebug.Enabled {
			pdebug.Printf("Reference is already resolved")
		}
		return c, nil
	}

	c, err = r.resolver.GetReference(r.reference)
	if err != nil {
		return nil, err
	}
	r.lock.Lock()
	r.resolved = c
	r.lock.Unlock()
	return c, nil
""")],
 '''	r := &res{gate: make(chan struct{})}
	ref := jsval.Reference(r).RefersTo("a")
	done := make(chan error)
	go func() { done <- ref.Validate("x") }()
	time.Sleep(50 * time.Millisecond)
	first := make(chan error)
	go func() { first <- ref.Validate(true) }()
	time.Sleep(50 * time.Millisecond)
	close(r.gate)
	a := (<-first == nil)
	b := (<-done == nil)
	// exactly one target was chosen, and it stays
	must(a != b, "the two uses saw different targets")
	must((ref.Validate(true) == nil) == a, "the target changed")''',
 {"TOP": '''type res struct {
	n    int32
	gate chan struct{}
}

func (r *res) GetReference(string) (jsval.Constraint, error) {
	n := r.n
	r.n++
	<-r.gate
	if n == 0 {
		time.Sleep(50 * time.Millisecond)
		return jsval.String(), nil
	}
	return jsval.Boolean(), nil
}
'''}),
("c14-deps-unlocked", "C14", "adding a dependency while another goroutine validates", "a data race on the dependency map",
 [("object.go", """func (o *ObjectConstraint) GetSchemaDependency(from string) Constraint {
	o.deplock.Lock()
	defer o.deplock.Unlock()

""", """func (o *ObjectConstraint) GetSchemaDependency(from string) Constraint {
""")],
 '''	o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			o.SchemaDependency(fmt.Sprint(i), jsval.EmptyConstraint)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			o.Validate(map[string]interface{}{"a": 1})
		}
	}()
	wg.Wait()''', {"RACE": True}),
("c14-registry-write", "C14", "two goroutines that validate structs of new types", "a data race on the registry of struct types",
 [("structinfo.go", "	r.lock.Lock()\n	if r.registry == nil {\n		r.registry = make(map[reflect.Type]StructInfo)\n	}\n	r.registry[t] = si\n	r.lock.Unlock()", "	r.lock.RLock()\n	if r.registry == nil {\n		r.registry = make(map[reflect.Type]StructInfo)\n	}\n	r.registry[t] = si\n	r.lock.RUnlock()")],
 '''	o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				t := reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("F%d_%d", g, i), Type: reflect.TypeOf(0)}})
				must(o.Validate(reflect.New(t).Interface()) == nil, "valid")
			}
		}(g)
	}
	wg.Wait()''', {"RACE": True}),
("c14-required-unlocked", "C14", "requiring names while another goroutine asks whether a name is required", "a data race on the required names",
 [("object.go", """func (o *ObjectConstraint) IsPropRequired(s string) bool {
	o.reqlock.Lock()
	defer o.reqlock.Unlock()

""", """func (o *ObjectConstraint) IsPropRequired(s string) bool {
""")],
 '''	o := jsval.Object()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			o.Required(fmt.Sprint(i))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			o.IsPropRequired("a")
		}
	}()
	wg.Wait()''', {"RACE": True}),
# ---- C15
("c15-nil-array", "C15", "validating nil against an array constraint", "a panic",
 [("array.go", "		if rv == zeroval {", "		if v != nil && rv == zeroval {")],
 '''	must(jsval.Array().Validate(nil) != nil, "nil is no array")'''),
("c15-remembered-string", "C15", "changing a facet after a text was accepted and validating the same text again", "the text is still accepted",
 [("string.go", "	str := rv.String()\n", "	str := rv.String()\n	if sc.accepted != \"\" && sc.accepted == str {\n		return nil\n	}\n"),
  ("string.go", """		if err := enum.Validate(str); err != nil {
			return err
		}
	}

	return nil
}
""", """		if err := enum.Validate(str); err != nil {
			return err
		}
	}

	sc.accepted = str
	return nil
}
"""), ("interface.go", "	format    string\n}", "	format    string\n	accepted  string\n}"), ("string.go", "	if enum := sc.enums; enum != nil {", "	if enum := sc.enums; sc.enums != nil {")],
 '''	c := jsval.String()
	must(c.Validate("abc") == nil, "no facet")
	must(c.MaxLength(1).Validate("abc") != nil, "too long")'''),
("c15-shrinking-any", "C15", "repeating a validation after another alternative matched", "alternatives that did not match are forgotten",
 [("combinations.go", "	for _, celem := range c.constraints {\n		if err := celem.Validate(v); err == nil {\n			return nil\n		}\n	}\n	return errors.New(\"could not", "	for i, celem := range c.constraints {\n		if err := celem.Validate(v); err == nil {\n			// try this one first next time\n			copy(c.constraints[1:i], c.constraints[:i])\n			c.constraints[0] = celem\n			return nil\n		}\n	}\n	return errors.New(\"could not")],
 '''	c := jsval.Any().Add(jsval.String()).Add(jsval.Boolean()).Add(jsval.Integer())
	must(c.Validate(1) == nil && c.Validate("a") == nil && c.Validate(true) == nil && c.Validate(1) == nil && c.Validate("a") == nil, "verdict changed")'''),
("c15-interface-nil", "C15", "a struct whose embedded or Maybe interface field is nil", "a panic",
 [("string.go", "	case reflect.Ptr, reflect.Interface:\n		rv = rv.Elem()\n	}\n\n	switch rv.Kind() {\n	case reflect.String:", "	case reflect.Ptr, reflect.Interface:\n		rv = reflect.Indirect(rv.Elem().Addr())\n	}\n\n	switch rv.Kind() {\n	case reflect.String:")],
 '''	var p *string
	must(jsval.String().Validate(p) != nil, "nil pointer")'''),
# ---- C16
("c16-single-name", "C16", "a prefix and a single pointer", "the variable is called like the prefix without a number",
 [("cmd/jsval/jsval.go", "			v.Name = fmt.Sprintf(\"%s%d\", p, i)", "			v.Name = p\n			if len(schemas) > 1 {\n				v.Name = fmt.Sprintf(\"%s%d\", p, i)\n			}")],
 None, {"SH": "CLI1"}),
("c16-skipped-pointer", "C16", "a pointer that is not found next to one that is", "the command succeeds and writes fewer validators",
 [("cmd/jsval/jsval.go", """			resolved, err := resolver.Get(m)
			if err != nil {
				log.Printf("%s", err)
				return 1
			}""", """			resolved, err := resolver.Get(m)
			if err != nil {
				log.Printf("%s", err)
				continue
			}""")],
 None, {"SH": "CLI2"}),
("c16-no-context", "C16", "no pointer, and a reference to a place that is neither a definition nor a property", "the command fails",
 [("cmd/jsval/jsval.go", "		v, err := b.BuildWithCtx(s, m)\n", "		ctx := interface{}(m)\n		if len(ptrs) == 0 {\n			ctx = nil\n		}\n		v, err := b.BuildWithCtx(s, ctx)\n")],
 None, {"SH": "CLI3"}),
# ---- C17
("c17-shared-response", "C17", "a failing request followed by a succeeding one", "the message of the first is part of the second answer",
 [("server/server.go", "	resp := make(map[string]interface{})\n", "	s.mutex.Lock()\n	defer s.mutex.Unlock()\n	resp := s.resp\n"),
  ("server/server.go", "	templates *template.Template\n}", "	templates *template.Template\n	resp      map[string]interface{}\n}"),
  ("server/server.go", "	return &Server{}", "	return &Server{resp: make(map[string]interface{})}")],
 '''	s := server.New()
	post(s, `{"type":"string"}`)
	_, ok := post(s, `{`)["code"]
	must(!ok, "the answer to a bad request has code")''', {"TOP": "POST"}),
("c17-no-context", "C17", "a reference outside definitions and properties", "the answer is a failure",
 [("server/server.go", "	v, err := b.BuildWithCtx(sc, m)", "	v, err := b.Build(sc)")],
 '''	must(post(server.New(), `{"type":"object","properties":{"a":{"$ref":"#/x/y"}},"x":{"y":{"type":"string"}}}`)["success"] == true, "usable schema refused")''', {"TOP": "POST"}),
("c17-templates-unlocked", "C17", "two requests for the page at the same time on a new server", "a data race on the templates",
 [("server/server.go", "	s.mutex.Lock()\n	defer s.mutex.Unlock()\n\n	if t := s.templates; t != nil {\n		return t, nil\n	}\n", "	if t := s.templates; t != nil {\n		return t, nil\n	}\n")],
 '''	s := server.New()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := httptest.NewRecorder()
			s.ServeHTTP(w, httptest.NewRequest("GET", "/", nil))
			must(w.Code == 200, "page")
		}()
	}
	wg.Wait()''', {"RACE": True}),
("c17-prefix-path", "C17", "a path that starts with /generate.json", "it is not answered with not found",
 [("server/server.go", "	switch r.URL.Path {\n	case \"/\":", "	switch path.Clean(r.URL.Path) {\n	case \"/\":"), ("server/server.go", "	\"net/http\"\n", "	\"net/http\"\n	\"path\"\n")],
 '''	w := httptest.NewRecorder()
	server.New().ServeHTTP(w, httptest.NewRequest("GET", "/generate.json/", nil))
	must(w.Code == 404, "found")'''),
# ---- C18
("c18-builder-keeps-refs", "C18", "building another schema with the same builder after one with references", "the second build fails",
 [("builder/builder.go", "type Builder struct{}", "type Builder struct {\n	refs map[string]struct{}\n}"),
  ("builder/builder.go", "	return &Builder{}", "	return &Builder{refs: map[string]struct{}{}}"),
  ("builder/builder.go", "		R: map[string]struct{}{}, // names of references used", "		R: b.refs, // names of references used")],
 '''	b := builder.New()
	do := func(s string) error {
		sc, _ := schema.Read(strings.NewReader(s))
		var m map[string]interface{}
		json.Unmarshal([]byte(s), &m)
		_, err := b.BuildWithCtx(sc, m)
		return err
	}
	must(do(`{"type":"object","properties":{"a":{"$ref":"#/definitions/s"}},"definitions":{"s":{"type":"string"}}}`) == nil, "first")
	must(do(`{"type":"string"}`) == nil, "second")'''),
("c18-context-modified", "C18", "building with a context document that has references", "the context document gains an entry",
 [("builder/builder.go", "		if jsctx == nil {\n			jsctx = s\n		}\n", "		if jsctx == nil {\n			jsctx = s\n		} else if m, ok := jsctx.(map[string]interface{}); ok {\n			if _, ok := m[\"definitions\"]; !ok {\n				m[\"definitions\"] = map[string]interface{}{}\n			}\n		}\n"),
  ("builder/builder.go", "	// Now, resolve references that were used in the schema\n	if len(ctx.R) > 0 {", "	// Now, resolve references that were used in the schema\n	if n := len(ctx.R); n > 0 {")],
 '''	s := `{"type":"object","properties":{"a":{"$ref":"#/x"}},"x":{"type":"string"}}`
	sc, _ := schema.Read(strings.NewReader(s))
	var m map[string]interface{}
	json.Unmarshal([]byte(s), &m)
	_, err := builder.New().BuildWithCtx(sc, m)
	must(err == nil && len(m) == 3, "context modified")'''),
]
POST = '''func post(s *server.Server, body string) map[string]interface{} {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/generate.json", strings.NewReader(body)))
	var m map[string]interface{}
	must(json.Unmarshal(w.Body.Bytes(), &m) == nil, "no JSON answer")
	return m
}
'''
CLI = '''#!/bin/bash
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
cp -a "$repo" "$d/src" || exit 3
cd "$d/src"
for f in go.mod go.sum; do [ -f $f ] || cp /opt/vp/mod/$f $f; done
go build -o "$d/jsval" ./cmd/jsval || exit 3
cd "$d"
'''
SHS = {
"CLI1": CLI + '''echo '{"type":"string"}' > s.json
./jsval -s s.json -P Foo -o out.go 2>/dev/null || exit 1
grep -q 'var Foo0 ' out.go || { echo "the name is not Foo0"; exit 1; }
''',
"CLI2": CLI + '''echo '{"definitions":{"a":{"type":"string"}}}' > s.json
./jsval -s s.json -p /definitions/a -p /definitions/b -o out.go 2>/dev/null && { echo "exit status 0"; exit 1; }
exit 0
''',
"CLI3": CLI + '''echo '{"type":"object","properties":{"a":{"$ref":"#/x/y"}},"x":{"y":{"type":"string"}}}' > s.json
./jsval -s s.json -o out.go 2>/dev/null || { echo "failed"; exit 1; }
''',
}
for x in SEEDS:
    if len(x) > 6:
        if x[6].get("TOP") == "POST":
            x[6]["TOP"] = POST
        if x[6].get("SH") in SHS:
            x[6]["SH"] = SHS[x[6]["SH"]]
