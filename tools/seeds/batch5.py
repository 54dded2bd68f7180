# bugs that show only in a tracing build (C21) or in what the repository's generators write (C22)
GEN = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
cp -a "$repo" "$d/src" || exit 3
cd "$d/src"
for f in go.mod go.sum; do [ -f $f ] || cp /opt/vp/mod/$f $f; done
go run ./internal/cmd/genmaybe || exit 3
mkdir -p cmd/demo && cp "$here/main.go" cmd/demo/ && go build -o "$d/demo" ./cmd/demo || exit 3
"$d/demo" || exit 1
'''
GT = r'''#!/bin/bash
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
cp -a "$repo" "$d/src" || exit 3
cd "$d/src"
for f in go.mod go.sum; do [ -f $f ] || cp /opt/vp/mod/$f $f; done
go build -o "$d/gentest" ./internal/cmd/gentest || exit 3
cd "$d"
'''
T = {"TAGS": "debug0"}
SEEDS = [
("c21-ref-deadlock", "C21", "a reference used a second time in a traced build", "the traced statement takes the lock that is held, and the validation hangs",
 [("reference.go", '''pdebug.Printf("Reference is already resolved")''', '''pdebug.Printf("Reference is already resolved (default: %t)", r.HasDefault())''')],
 '''	m := &jsval.ConstraintMap{}
	m.SetReference("a", jsval.String())
	r := jsval.Reference(m).RefersTo("a")
	done := make(chan bool)
	go func() {
		must(r.Validate("x") == nil, "first")
		must(r.Validate("x") == nil, "second")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		must(false, "hangs")
	}''', T),
("c21-elem-kind", "C21", "positional items of a typed slice in a traced build", "panics",
 [("array.go", '''pdebug.Printf("Checking positional item at '%d'", i)''', '''pdebug.Printf("Checking positional item at '%d' (%s)", i, rv.Index(i).Elem().Kind())''')],
 '''	c := jsval.Array().PositionalItems([]jsval.Constraint{jsval.Integer()})
	defer func() { must(recover() == nil, "panic") }()
	must(c.Validate([]int{1}) == nil, "fails")''', T),
("c21-freely", "C21", "additionalItems true in a traced build", "building panics",
 [("builder/array.go", '''pdebug.Printf("Additional items will be allowed freely")''', '''pdebug.Printf("Additional items will be allowed freely (%d types)", len(aitems.Schema.Type))''')],
 '''	s := schema.New()
	must(s.Decode(strings.NewReader(`{"type":"array","items":[{"type":"string"}],"additionalItems":true}`)) == nil, "schema")
	defer func() { must(recover() == nil, "panic") }()
	_, err := builder.New().Build(s)
	must(err == nil, "build")''', T),
("c21-default-once", "C21", "a default that is not a string in a traced build", "panics",
 [("object.go", '''pdebug.Printf("object property '" + pname + "' has default")''', '''pdebug.Printf("object property '" + pname + "' has default " + c.DefaultValue().(string))''')],
 '''	c := jsval.Object().AddProp("a", jsval.Integer().Default(3))
	defer func() { must(recover() == nil, "panic") }()
	must(c.Validate(map[string]interface{}{}) == nil, "fails")''', T),
("c21-marker-swallow", "C21", "a failing All in a traced build", "the error is lost on the way out",
 [("combinations.go", '''		g := pdebug.Marker("AllConstraint.Validate").BindError(&err)
		defer g.End()''', '''		g := pdebug.Marker("AllConstraint.Validate").BindError(&err)
		defer func() { g.End(); err = nil }()''')],
 '''	c := jsval.All().Add(jsval.String()).Add(jsval.String().MaxLength(1))
	must(c.Validate("abc") != nil, "accepted")''', T),
("c22-int16", "C22", "an int16 stored in a regenerated MaybeInt", "refused",
 [("internal/cmd/genmaybe/genmaybe.go", '''"int", "int8", "int16", "int32", "float64"''', '''"int", "int8", "int32", "float64"''')],
 '''	var m jsval.MaybeInt
	must(m.Set(int16(3)) == nil && m.Value() == int64(3), "int16")''', {"SH": GEN}),
("c22-time-flag", "C22", "a text that is no time stored in a regenerated MaybeTime", "the value counts as valid after the error",
 [("internal/cmd/genmaybe/genmaybe.go", '''			buf.WriteString("\\ntv, err := time.Parse(time.RFC3339, x.(string))")
			buf.WriteString("\\nif err != nil {")
			buf.WriteString("\\nreturn err")
			buf.WriteString("\\n}")
			buf.WriteString("\\nv.ValidFlag = true")
''', '''			buf.WriteString("\\nv.ValidFlag = true")
			buf.WriteString("\\ntv, err := time.Parse(time.RFC3339, x.(string))")
			buf.WriteString("\\nif err != nil {")
			buf.WriteString("\\nreturn err")
			buf.WriteString("\\n}")
''')],
 '''	var m jsval.MaybeTime
	must(m.Set("nope") != nil && !m.Valid(), "valid")''', {"SH": GEN}),
("c22-uint-narrow", "C22", "a large uint stored in a regenerated MaybeUint", "truncated to 32 bits",
 [("internal/cmd/genmaybe/genmaybe.go", '''fmt.Fprintf(&buf, "\\nv.%s = uint64(x.(%s))", t, ct)''', '''fmt.Fprintf(&buf, "\\nv.%s = uint64(uint32(x.(%s)))", t, ct)''')],
 '''	var m jsval.MaybeUint
	must(m.Set(uint(1<<40+1)) == nil && m.Value() == uint64(1<<40+1), "truncated")''', {"SH": GEN}),
("c22-reset-kept", "C22", "Reset of a regenerated Maybe value", "it stays valid",
 [("internal/cmd/genmaybe/genmaybe.go", "func (v *ValidFlag) Reset() {\n	*v = false\n}", "func (v ValidFlag) Reset() {\n	v = false\n}")],
 '''	var m jsval.MaybeString
	m.Set("a")
	m.Reset()
	must(!m.Valid(), "still valid")''', {"SH": GEN}),
("c22-gentest-status", "C22", "a schema with a reference that cannot be resolved", "exit status 0",
 [("internal/cmd/gentest/gentest.go", '''	v, err := b.Build(s)
	if err != nil {
		log.Printf("%s", err)
		return 1
	}''', '''	v, err := b.Build(s)
	if err != nil {
		log.Printf("%s", err)
		return 0
	}''')], None, {"SH": GT + r'''
echo '{"type":"object","properties":{"a":{"$ref":"#/nowhere"}}}' > s.json
./gentest s.json out.go 2>/dev/null && { echo "status 0"; exit 1; }
exit 0
'''}),
("c22-gentest-keep", "C22", "an output file that exists and is longer", "the old tail is left behind",
 [("internal/cmd/gentest/gentest.go", '''os.O_CREATE|os.O_WRONLY|os.O_TRUNC''', '''os.O_CREATE|os.O_WRONLY''')], None, {"SH": GT + r'''
echo '{"type":"string"}' > s.json
yes '}' | head -3000 > out.go
./gentest s.json out.go || exit 3
gofmt out.go > /dev/null 2>&1 || { echo "does not compile"; exit 1; }
exit 0
'''}),
]
