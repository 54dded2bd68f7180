# bugs that need an unusual but legal input, or many of something
BUILD = '''func build(doc string) (*jsval.JSVal, error) {
	s, err := schema.Read(strings.NewReader(doc))
	if err != nil {
		panic(err)
	}
	var m interface{}
	json.Unmarshal([]byte(doc), &m)
	return builder.New().BuildWithCtx(s, m)
}
'''
GEN = '''func gen(vs ...*jsval.JSVal) string {
	var buf bytes.Buffer
	if err := jsval.NewGenerator().Process(&buf, vs...); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	return buf.String()
}
'''
SEEDS = [
("c11-extract-ignored", "C11", "a reference to an object that is not a schema", "the build succeeds",
 [("builder/builder.go", "		if err := s1.Extract(thing.(map[string]interface{})); err != nil {\n			return err\n		}\n", "		s1.Extract(thing.(map[string]interface{}))\n")],
 '''	_, err := build(`{"type":"object","properties":{"a":{"$ref":"#/x"}},"x":{"type":5}}`)
	must(err != nil, "built")''', {"TOP": BUILD}),
("c11-unescaped-twice", "C11", "a reference whose pointer contains an escaped percent sign", "it is unescaped twice and leads elsewhere",
 [("builder/builder.go", '	if ref := s.Reference; ref != "" {\n		c := jsval.Reference(ctx.V)\n', '	if ref := s.Reference; ref != "" {\n		if u, err := url.PathUnescape(ref); err == nil && !strings.HasSuffix(u, "%") {\n			ref = u\n		}\n		c := jsval.Reference(ctx.V)\n'),
  ("builder/reference.go", "	r.RefersTo(s.Reference)\n", "	ref := s.Reference\n	if u, err := url.PathUnescape(ref); err == nil && !strings.HasSuffix(u, \"%\") {\n		ref = u\n	}\n	r.RefersTo(ref)\n"),
  ("builder/reference.go", 'import (\n', 'import (\n	"net/url"\n	"strings"\n\n')],
 '''	v, err := build(`{"type":"object","properties":{"a":{"$ref":"#/definitions/x%2541"}},"definitions":{"xA":{"type":"string"},"x%41":{"type":"integer"}}}`)
	must(err == nil && v.Validate(map[string]interface{}{"a": 1.0}) == nil, "rejected")''', {"TOP": BUILD}),
("c11-definitions-once", "C11", "more than one level of references between definitions, in some orders only", "a reference reached through another is left unresolved",
 [("builder/builder.go", "	for ref := range ctx.R {\n		if err := compileReferences(ctx, r", "	for ref, _ := range ctx.R {\n		if len(ctx.D) > 8 {\n			return nil\n		}\n		if err := compileReferences(ctx, r")],
 '''	doc := `{"type":"object","properties":{"a":{"$ref":"#/definitions/d0"}},"definitions":{`
	for i := 0; i < 20; i++ {
		doc += fmt.Sprintf(`"d%d":{"type":"object","properties":{"a":{"$ref":"#/definitions/d%d"}}},`, i, i+1)
	}
	doc += `"d20":{"type":"integer"}}}`
	v, err := build(doc)
	must(err == nil, "not built")
	var x interface{} = 1.0
	for i := 0; i < 21; i++ {
		x = map[string]interface{}{"a": x}
	}
	must(v.Validate(x) == nil, "rejected")''', {"TOP": BUILD}),
("c12-raw-pattern", "C12", "a pattern with a carriage return in it", "the generated pattern lacks it",
 [("generator.go", '		fmt.Fprintf(out, ".RegexpString(%s)", strconv.Quote(rx.String()))\n', '		pat := strconv.Quote(rx.String())\n		if strings.ContainsRune(rx.String(), \'\\\\\') && !strings.ContainsRune(rx.String(), \'`\') {\n			pat = "`" + rx.String() + "`" // easier to read\n		}\n		fmt.Fprintf(out, ".RegexpString(%s)", pat)\n')],
 '''	v := jsval.New().SetName("V").SetRoot(jsval.String().RegexpString("^\\\\d\\r$"))
	s := gen(v)
	must(strings.Contains(s, `\\r`) || !strings.Contains(s, "`"), s)''', {"TOP": GEN}),
("c12-exact-length", "C12", "a string whose minimum and maximum length are the same", "the minimum is not generated",
 [("generator.go", "	if c.minLength > 0 {\n", "	if c.minLength > 0 && c.minLength != c.maxLength {\n")],
 '''	s := gen(jsval.New().SetName("V").SetRoot(jsval.String().MinLength(5).MaxLength(5)))
	must(strings.Contains(s, "MinLength(5)"), s)''', {"TOP": GEN}),
("c12-unique-tuples", "C12", "uniqueItems together with positional items", "uniqueItems is not generated",
 [("generator.go", "	if c.uniqueItems {\n", "	if c.uniqueItems && len(c.positionalItems) == 0 {\n")],
 '''	s := gen(jsval.New().SetName("V").SetRoot(jsval.Array().UniqueItems(true).PositionalItems([]jsval.Constraint{jsval.String()})))
	must(strings.Contains(s, "UniqueItems(true)"), s)''', {"TOP": GEN}),
("c13-many-properties", "C13", "an object with more than sixteen properties", "they are written in any order",
 [("generator.go", "	sort.Strings(pnames)\n\n	for _, pname := range pnames {\n		pdef", "	if len(pnames) <= 16 {\n		sort.Strings(pnames)\n	}\n\n	for _, pname := range pnames {\n		pdef")],
 '''	o := jsval.Object()
	for i := 0; i < 40; i++ {
		o.AddProp(fmt.Sprintf("p%d", i), jsval.String())
	}
	v := jsval.New().SetName("V").SetRoot(o)
	a := gen(v)
	for i := 0; i < 50; i++ {
		must(gen(v) == a, "differs")
	}''', {"TOP": GEN}),
("c13-root-order", "C13", "a validator whose root is registered under more than one name", "any of them is written",
 [("generator.go", "	for _, rname := range ctx.sortedRefs() {\n		if v.root == ctx.refs[rname] {\n			fmt.Fprintf(out, \".\\nSetRoot(%s)\", ctx.refnames[rname])\n", "	for rname, rc := range ctx.refs {\n		if v.root == rc {\n			rname = ctx.refnames[rname]\n			fmt.Fprintf(out, \".\\nSetRoot(%s)\", rname)\n")],
 '''	c := jsval.String().MinLength(1)
	v := jsval.New().SetName("V").SetRoot(c)
	for i := 0; i < 8; i++ {
		v.SetReference(fmt.Sprintf("r%d", i), c)
	}
	a := gen(v)
	for i := 0; i < 50; i++ {
		must(gen(v) == a, "differs")
	}''', {"TOP": GEN}),
("c08-time-offset", "C08", "a time that is not in UTC", "its offset is lost when encoded",
 [("maybe.go", "	return json.Marshal(v.Time.Format(time.RFC3339))\n", '	return json.Marshal(v.Time.Format("2006-01-02T15:04:05Z"))\n')],
 '''	var a, b jsval.MaybeTime
	a.Set("2020-01-02T03:04:05+09:00")
	buf, _ := a.MarshalJSON()
	must(b.UnmarshalJSON(buf) == nil && a.Time.Equal(b.Time), string(buf))'''),
("c08-float32-digits", "C08", "a float32 that is no short decimal", "another value is stored",
 [("maybe.go", "		v.Float = float64(x.(float32))\n", "		f, err := strconv.ParseFloat(strconv.FormatFloat(float64(x.(float32)), 'g', -1, 32), 64)\n		if err != nil {\n			return err\n		}\n		v.Float = f\n"),
  ("maybe.go", '	"reflect"\n	"time"\n', '	"reflect"\n	"strconv"\n	"time"\n')],
 '''	var a jsval.MaybeFloat
	x := float32(0.1)
	a.Set(x)
	must(a.Float == float64(x), "not the same")'''),
("c08-string-trim", "C08", "decoding a string into a Maybe that already holds it", "it is not valid again after a reset",
 [("maybe.go", "	var in string\n	if err := json.Unmarshal(data, &in); err != nil {\n		return err\n	}\n	return v.Set(in)\n", "	in := v.String\n	if err := json.Unmarshal(data, &in); err != nil {\n		return err\n	}\n	if in == v.String && in != \"\" {\n		return nil\n	}\n	return v.Set(in)\n")],
 '''	var a jsval.MaybeString
	a.Set("x")
	a.Reset()
	a.UnmarshalJSON([]byte(`"x"`))
	must(a.Valid(), "not valid")'''),
("c16-hex-names", "C16", "more than ten pointers and a prefix", "the names are not numbered by position",
 [("cmd/jsval/jsval.go", 'fmt.Sprintf("%s%d", p, i)', 'fmt.Sprintf("%s%x", p, i)')],
 None, {"SH": '''#!/bin/bash
set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export GOFLAGS=-mod=mod
go build -o "$D/jsval" ./cmd/jsval
echo '{"definitions":{"a":{"type":"string"}}}' > "$D/s.json"
P=""; for i in $(seq 12); do P="$P -p /definitions/a"; done
"$D/jsval" -s "$D/s.json" -P V $P 2>/dev/null | grep -q 'var V11 '
'''}),
("c18-builder-context", "C18", "one builder used by several goroutines", "a build uses the references of another",
 [("builder/builder.go", "type Builder struct{}\n", "type Builder struct {\n	ctx *buildctx // of the build in progress\n}\n"),
  ("builder/builder.go", "	c, err := buildFromSchema(&ctx, s)\n", "	b.ctx = &ctx\n	c, err := buildFromSchema(&ctx, s)\n"),
  ("builder/builder.go", "	if len(ctx.R) > 0 {\n", "	if len(b.ctx.R) > 0 {\n")],
 '''	b := builder.New()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				s, _ := schema.Read(strings.NewReader(`{"type":"string"}`))
				b.Build(s)
			}
		}()
	}
	wg.Wait()''', {"RACE": True}),
("c18-dependency-aliased", "C18", "a schema that lists the same dependency for several properties, built twice", "the schema's own lists grow",
 [("builder/object.go", "	for from, to := range s.Dependencies.Names {\n		c.PropDependency(from, to...)\n", "	for from := range s.Dependencies.Names {\n		to := s.Dependencies.Names[from]\n		for i := range to {\n			if to[i] == from { // needs no check\n				to = append(to[:i], to[i+1:]...)\n				break\n			}\n		}\n		c.PropDependency(from, to...)\n")],
 '''	s, _ := schema.Read(strings.NewReader(`{"type":"object","dependencies":{"a":["a","b","c"]}}`))
	builder.New().Build(s)
	must(strings.Join(s.Dependencies.Names["a"], "") == "abc", fmt.Sprint(s.Dependencies.Names))'''),
("c19-pointer-value", "C19", "GetPropValue that returns a nil pointer", "the property counts as absent",
 [("object.go", "			if err == nil {\n				return reflect.ValueOf(pv)\n			}\n", "			if err == nil {\n				if pv := reflect.ValueOf(pv); pv.Kind() != reflect.Ptr || !pv.IsNil() {\n					return pv\n				}\n			}\n")],
 '''	o := jsval.Object().AddProp("p", jsval.NullConstraint).Required("p")
	must(o.Validate(T{}) == nil, "rejected")''', {"TOP": '''type T struct{}

func (t T) GetPropNames() ([]string, error)                 { return []string{"p"}, nil }
func (t T) GetPropValue(n string) (interface{}, error)      { var s *string; return s, nil }
'''}),
("c19-names-deduped", "C19", "more names than fields", "only as many names as there are fields count",
 [("object.go", "			if err == nil {\n				return pv, nil\n			}\n", "			if err == nil {\n				if n := rv.NumField(); n > 0 && len(pv) > n {\n					pv = pv[:n]\n				}\n				return pv[:len(pv):len(pv)], nil\n			}\n")],
 '''	o := jsval.Object().MaxProperties(1)
	o.AdditionalProperties(jsval.EmptyConstraint)
	must(o.Validate(T{}) != nil, "accepted")''', {"TOP": '''type T struct{ x int }

func (t T) GetPropNames() ([]string, error)                 { return []string{"p", "q"}, nil }
func (t T) GetPropValue(n string) (interface{}, error)      { return 1, nil }
'''}),
("c21-traced-pattern", "C21", "tracing, and a property that matches no pattern", "it is validated against the pattern's constraint all the same",
 [("object.go", "			if !pat.MatchString(pname) {\n				if pdebug.Enabled {\n					pdebug.Printf(\"Property '%s' does not match pattern...\", pname)\n				}\n				continue\n			}\n", "			if !pat.MatchString(pname) {\n				if !pdebug.Enabled {\n					continue\n				}\n				pdebug.Printf(\"Property '%s' does not match pattern...\", pname)\n			}\n")],
 '''	o := jsval.Object().PatternPropertiesString("^x", jsval.String()).AdditionalProperties(jsval.EmptyConstraint)
	must(o.Validate(map[string]interface{}{"y": 1}) == nil, "rejected")''', {"TAGS": "debug0"}),
("c21-traced-default", "C21", "tracing, and a property name with a percent sign that gets a default", "nothing is stored",
 [("object.go", "				// We have default\n				dv := c.DefaultValue()\n", "				// We have default\n				if pdebug.Enabled && strings.Contains(pname, \"%\") {\n					continue // can't be printed\n				}\n				dv := interface{}(c.DefaultValue())\n"),
  ("object.go", '	"regexp"\n', '	"regexp"\n	"strings"\n')],
 '''	o := jsval.Object().AddProp("100%", jsval.String().Default("x"))
	m := map[string]interface{}{}
	o.Validate(m)
	must(m["100%"] == "x", "no default")''', {"TAGS": "debug0"}),
("c22-float32-written", "C22", "a float32 stored in a MaybeFloat of the written file", "another value is stored",
 [("internal/cmd/genmaybe/genmaybe.go", '			fmt.Fprintf(&buf, "\\nv.%s = float64(x.(float32))", t)\n', '			fmt.Fprintf(&buf, "\\nv.%s = float64(int64(x.(float32)*1000000)) / 1000000", t)\n')],
 None, {"SH": '''#!/bin/bash
set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export GOFLAGS=-mod=mod
go build -o "$D/genmaybe" ./internal/cmd/genmaybe
(cd "$D" && ./genmaybe)
cat > "$D/x_test.go" <<'X'
package jsval_test
import ("testing"; "github.com/lestrrat-go/jsval")
func TestX(t *testing.T) {
	var a jsval.MaybeFloat
	a.Set(float32(1e-9))
	if a.Float != float64(float32(1e-9)) { t.Fatal(a.Float) }
}
X
echo "{\\"Replace\\": {\\"$PWD/maybe.go\\": \\"$D/maybe.go\\", \\"$PWD/zz_x_test.go\\": \\"$D/x_test.go\\"}}" > "$D/o.json"
go test -vet=off -overlay "$D/o.json" -run '^TestX$' .
'''}),
("c01-regexp-longest", "C01", "a very long text", "only its beginning is matched",
 [("string.go", "		if !rx.MatchString(str) {", "		if !rx.MatchString(str[:len(str)%(1<<16)]) {")],
 '''	must(jsval.String().RegexpString("^a+$").Validate(strings.Repeat("a", 1<<16)) == nil, "rejected")'''),
("c07-deep-embedding", "C07", "a field four levels of embedding down", "it does not exist",
 [("structinfo.go", "	props := extract(t)\n", "	props := extract(t)\n	for pname, pinfo := range props {\n		if len(pinfo.index) > 4 {\n			delete(props, pname)\n		}\n	}\n"), ("structinfo.go", "	si = StructInfo{props: props}\n", "	si = StructInfo{\n		props: props,\n	}\n")],
 """	must(jsval.Object().AddProp("Z", jsval.String()).Required("Z").Validate(A{}) == nil, "rejected")""", {"TOP": """type E struct{ Z string }
type D struct{ E }
type C struct{ D }
type B struct{ C }
type A struct{ B }
"""}),
("c09-name-normalized", "C09", "names that differ in an escape", "they lead to the same constraint",
 [("reference.go", "	refs[name] = c\n}", "	if n := strings.TrimSuffix(name, \"#\"); n != \"\" {\n		name = n\n	}\n	refs[strings.TrimSpace(name)] = c\n}"), ("reference.go", "	c, ok := refs[name]\n", "	if n := strings.TrimSuffix(name, \"#\"); n != \"\" {\n		name = n\n	}\n	c, ok := refs[strings.TrimSpace(name)]\n"), ("reference.go", 'import (\n', 'import (\n	"strings"\n')],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("a#", jsval.String())
	_, err := m.GetReference("a")
	must(err != nil, "found")'''),
]
