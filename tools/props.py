import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p("C01","A string constraint accepts exactly the strings that meet every facet",
 "A string constraint accepts a value exactly when it is a string (or a pointer to one) and satisfies every facet set on the constraint: minimum and maximum length, both inclusive and counted in characters; the regular expression, matched anywhere in the text; membership in the enumeration; and the named format. The formats date-time (also spelled datetime), hostname, ipv4, ipv6, email and uri are enforced, and any other format name restricts nothing. Setting a facet again replaces its previous value, and no facet depends on the order in which facets were set.",
 ["inputs","configurations"],"every combination and order of facet settings, and every Go value offered for validation",
 "The tests try one max/min pair on three ASCII strings; length boundaries, multi-byte text, patterns, enumerations and all six formats have an unbounded input space.",
 ["string.go","interface.go","enum.go"],
 [("StringConstraint.Validate","string.go"),("isDomainName","string.go"),("facet setters","string.go")],observe=["StringConstraint.Validate result"])
p("C02","Number and integer constraints accept exactly the values within their facets",
 "A number constraint accepts exactly the floating-point values (or pointers to them), and an integer constraint exactly the integral numeric values of any Go integer, unsigned or floating-point type (or pointers to them), that satisfy every facet set on it: minimum and maximum, each inclusive unless marked exclusive; divisibility by a non-zero multipleOf; and numeric membership in the enumeration (all compared as float64). Values of any other kind are rejected. Setting a facet again replaces its previous value, an exclusive marker without its bound restricts nothing, and no facet depends on the order in which facets were set.",
 ["inputs","configurations"],"every facet combination and order, and every Go value offered",
 "Two tests with one bound pair each; boundary, sign, exclusive, multipleOf, enumeration and Go-type combinations are never sampled.",
 ["number.go","enum.go","interface.go"],
 [("NumberConstraint.Validate","number.go"),("IntegerConstraint.Validate","number.go")],observe=["Validate result"])
p("C03","Combinators and elementary constraints follow propositional logic",
 "Any accepts a value exactly when at least one child accepts it, All when every child does, OneOf when exactly one does, and Not when its child rejects it (Not without a child rejects everything); an empty Any or OneOf rejects and an empty All accepts everything. Boolean accepts exactly booleans (those in its enumeration, if it has one), the null constraint exactly nil and nil pointers, maps, slices, functions and channels, the empty constraint everything, and an enumeration exactly the values equal to one of its members (numbers compared numerically, arrays and objects by content). Reducing a combinator never changes what it accepts.",
 ["inputs","programs"],"every finite tree of combinators over elementary constraints, every number and order of children, and every value",
 "No test exercises a combinator's truth table; composition depth and child count are unbounded.",
 ["combinations.go","basic.go","bool.go","enum.go"],
 [("Any/All/OneOf Validate","combinations.go"),("Not, null, empty","basic.go"),("EnumConstraint.Validate","enum.go"),("reduceCombined","combinations.go")],observe=["Validate result"])
p("C04","An array constraint accepts exactly the slices that meet its item rules",
 "An array constraint accepts a value exactly when it is a slice whose length lies within minItems and maxItems (inclusive), whose elements are pairwise different JSON values if uniqueItems is set, and whose elements satisfy the item rules. If an all-items constraint is set every element must satisfy it and the positional rules have no effect; otherwise the element at each position covered by a positional constraint must satisfy that constraint, and the elements after the last positional constraint, and only those, must satisfy the additional-items constraint, being forbidden when that constraint is nil. Without positional constraints the additional-items constraint has no effect, and a new array constraint allows any additional items.",
 ["inputs","configurations"],"every setting of the item rules, every slice length and every placement of a violating element",
 "The only array test looks for two substrings in generated code; no array value is ever validated against positional or additional items.",
 ["array.go"],[("ArrayConstraint.Validate","array.go")],observe=["ArrayConstraint.Validate result"])
p("C05","An object constraint accepts exactly the maps that meet its property rules",
 "An object constraint accepts a map exactly when: the number of properties present lies within minProperties and maxProperties; every required property is present; each declared property that is present satisfies its constraint; every other property satisfies the constraints of all patterns that match its name or, when none matches, the additional-properties constraint, which if unset forbids it; and for every property present, whichever rule covered it, its dependencies hold, i.e. the properties it depends on are present or, when it depends on none by name, the whole object satisfies its dependent schema. The verdict never depends on map iteration order, and everything that is not a string-keyed map, a struct or a pointer to one is rejected.",
 ["inputs","configurations"],"every combination of property rules, every map, and every map iteration order",
 "Tests use three fixed schemas and about a dozen maps; they never combine patterns, undeclared required names, additional properties and dependencies, and cannot control Go's randomised map order.",
 ["object.go"],[("ObjectConstraint.Validate","object.go"),("getPropNames/getProp","object.go"),("dependency tables","object.go")],observe=["ObjectConstraint.Validate result"])
p("C06","Defaults fill exactly the missing optional properties and nothing else",
 "When validation of an object succeeds, every declared property that was absent, is not required and whose constraint (directly or through a reference) has a default is present afterwards with that default value; no property that was present is changed or removed and no other property is added, at any nesting depth reached through properties, items, positional items, All and references. When validation fails, present properties are still unchanged and anything added is a declared default. A default never satisfies a required property of the same constraint, never triggers or satisfies a property dependency, is not counted as a present property, and a default that cannot be stored in the input makes validation fail with an error.",
 ["inputs","configurations"],"every object constraint with defaults and every map or struct input, including nil and typed maps and structs passed by value",
 "One test checks one string default on one struct; nesting, references, typed maps, interaction with required and with dependencies are not sampled.",
 ["object.go","reference.go","basic.go"],[("default branch of ObjectConstraint.Validate","object.go"),("setProp / coerceValue","object.go")],observe=["the input value after Validate returns"])
p("C07","A struct validates exactly as the JSON object it stands for",
 "Validating a struct, or a pointer to one, gives the same verdict as validating the map that holds one entry per exported field under its JSON name: the name in the json tag up to the first comma, or the Go field name if the tag names none; fields tagged \"-\" and unexported fields do not exist; fields of an embedded struct count as fields of the outer struct (unless the tag gives the embedded struct a name of its own, or \"-\"), and of several fields of one name the least deeply embedded one counts; fields behind a nil embedded pointer are absent. A Maybe field (or nil pointer to one) that is not valid counts as an absent property and a valid one counts as its contained value; every other field is present. A default for an absent Maybe field of a struct passed by pointer is stored in that field and makes it valid, with numeric defaults converted to the field's numeric type. The exported registry of struct information, used from its zero value, reports the same names, and the Go name of the field behind each.",
 ["inputs","programs"],"every struct type (field types, tags, embedding), every state of its Maybe fields and every object constraint",
 "Tests use a single two-field struct type; tag forms, embedding, the six Maybe types, cached type information and by-value inputs are not covered.",
 ["structinfo.go","object.go","maybe.go"],[("extract","structinfo.go"),("StructInfo.PropNames/FieldName","structinfo.go"),("Maybe handling in ObjectConstraint.Validate","object.go")],observe=["Validate result and the struct afterwards"])
p("C08","Maybe values reflect the last successful set, decode or reset",
 "A Maybe value is valid exactly when its most recent successful operation among set, JSON decode and reset was not a reset and at least one such operation happened; while valid, its value is the one last set or decoded, converted to the type's representation (exactly, except that a float given to an integer type is truncated). A set with an unsupported type or a decode of malformed, mistyped or out-of-range data returns an error and changes nothing. Encoding yields the JSON text of the current value, and decoding that text into a fresh Maybe of the same type yields a valid Maybe with an equal value (times to the second).",
 ["histories"],"every sequence of set, reset, encode and decode operations on each of the six Maybe types with arguments of every Go type",
 "Tests perform at most two successful operations on two of the types and never decode into a time or observe validity after decoding.",
 ["maybe.go","internal/cmd/genmaybe/genmaybe.go"],[("MaybeX.Set / UnmarshalJSON / MarshalJSON","maybe.go"),("ValidFlag","maybe.go")],state=[dict(name="ValidFlag",meaning="validity",where="maybe.go")],observe=["Valid, Value, errors and encoded text after each operation"])
p("C09","A reference behaves as the constraint it names, under every registration history",
 "Looking a name up in a reference map yields the constraint most recently registered under it, or an error if there is none, and registering one name never affects another. A reference constraint validates, and reports its default, exactly as the constraint registered under its name at the moment it is first used successfully, and keeps that target afterwards; used before its name is registered it rejects with an error and reports no default, and that failure is not remembered. References may be chained and recursive.",
 ["histories","configurations"],"every interleaving of registrations, lookups and uses over any set of names, maps and reference constraints",
 "Tests resolve references once, after everything is registered; late registration, re-registration, chains and lookups of missing names are never sequenced.",
 ["reference.go","jsval.go"],[("ConstraintMap.SetReference/GetReference","reference.go"),("ReferenceConstraint.Resolved","reference.go")],state=[dict(name="refs",meaning="name to constraint",where="reference.go"),dict(name="resolved",meaning="cached target",where="reference.go")],observe=["results of GetReference, Resolved, Validate, HasDefault, DefaultValue"])
p("C10","A validator built from a schema accepts exactly what the schema accepts",
 "For every schema without references, the built validator accepts a decoded JSON value exactly when the value satisfies the schema: all of not, allOf, anyOf and oneOf that are given, and at least one of the schema's types together with all keywords (including enum) that apply to that type. A schema that declares no type has the types its keywords imply, and if they imply none only its combining keywords and enum restrict the value. As documented, patternProperties and additionalProperties do not apply to properties listed under properties, and the default of a property whose schema has one primitive type and no combining keyword is filled in when the property is missing.",
 ["programs","inputs"],"every schema over the supported keywords, nested to any depth, and every JSON value",
 "Tests build about a dozen fixed schemas and compare two structs; the space of keyword combinations, implied types and nestings is unbounded.",
 ["builder/builder.go","builder/object.go","builder/array.go","builder/number.go","builder/string.go","builder/bool.go"],
 [("buildFromSchema","builder/builder.go"),("guessSchemaType","builder/builder.go"),("build*Constraint","builder/*.go")],observe=["verdict of the built validator"])
p("C11","Schema references resolve to the schema they point at",
 "In a built validator every $ref is decided by the schema found at that JSON pointer in the context document (or, without a context, among the definitions and properties of the schema itself), including \"#\", chains of references, mutually recursive definitions, references reached only through other references, and sub-schemas built with the enclosing document as context; keywords next to $ref are ignored. A reference that points at nothing, at something that is not a schema, or leads back to itself without descending into a property or an item, makes the build return an error, so a validator returned by a successful build never fails because of an unresolved reference.",
 ["programs","inputs"],"every document and reference graph, build context and JSON value",
 "Tests build documents with a handful of direct references; graph shape, recursion, indirection, context choice and dangling targets are not explored.",
 ["builder/builder.go","builder/reference.go","reference.go"],[("compileReferences","builder/builder.go"),("BuildWithCtx","builder/builder.go")],observe=["Build error or verdict of the built validator"])
p("C12","Generated code rebuilds an equivalent validator",
 "For every validator, whether built from a schema or assembled by hand as a tree of this package's constraints and references registered in its map, generation succeeds and the emitted code compiles and, when run, produces a validator that accepts exactly the same values, fills in the same defaults, and resolves the same references as the original, also when several validators of distinct names, whose references may be called the same, are generated together. This holds for every facet value, property name, pattern, default and enumeration member, including ones containing quotes, backslashes, percent signs, line breaks or non-ASCII text, and for fractional, very large or very small finite numbers.",
 ["programs","inputs"],"every constraint tree and reference map, every text and number appearing in it, and every value validated",
 "Tests check two substrings of one generated text and one rejection by one generated validator.",
 ["generator.go"],[("generateCode and generate*Code","generator.go")],observe=["verdicts of the compiled generated code"])
p("C13","Code generation is deterministic, complete and reports every failure",
 "Generating code for a given set of validators writes the same bytes every time, in every process, whatever the argument order of named validators, and leaves the validators' behaviour unchanged; the output declares exactly one variable for every validator, under its name or V0, V1, ... by position if it has none. Generation either delivers the complete output to the writer and returns no error, or returns an error; if the writer fails it returns an error.",
 ["configurations","fault_sequences"],"every set and order of validators and references, every map iteration order, and every point at which the writer fails",
 "Tests call the generator once per validator, never compare two runs, and only write to a memory buffer.",
 ["generator.go","jsval.go"],[("Generator.Process","generator.go"),("JSValSlice","jsval.go")],observe=["bytes and error delivered by Process"])
p("C14","Concurrent use gives the same results as sequential use",
 "Any number of goroutines may validate separate inputs against one shared validator (including recursive references resolved for the first time, and structs of a type seen for the first time) and every call returns the verdict, and fills in the defaults, it would alone, with no data race, deadlock or crash. Registering, looking up and resolving references, and adding and querying properties, patterns, required names and dependencies of an object concurrently with each other and with validation is race-free; each of these operations takes effect atomically between its call and its return. A validation that overlaps additions may take each added name or rule into account or not, but it takes every one into account that was added before the validation began and none that was added after it returned.",
 ["schedules"],"every interleaving of goroutines using shared constraints, reference maps and validators",
 "No test starts a goroutine.",
 ["object.go","reference.go","structinfo.go"],[("deplock/proplock/reqlock","object.go"),("ConstraintMap.lock, ReferenceConstraint.lock","reference.go"),("StructInfoRegistry.lock","structinfo.go")],observe=["results of concurrent calls, race detector"])
p("C15","Validation is total, repeatable and leaves validators and inputs alone",
 "Validating any (acyclic) Go value against any constraint whose references do not lead straight back to themselves returns either nil or an error and never panics, hangs or crashes. Repeating a validation gives the same verdict however often and in whatever order other validations and configuration calls on other constraints happened in between, and a configuration call on a constraint affects every later validation and no earlier one. Apart from declared defaults, the input is not modified.",
 ["inputs","histories"],"every Go value, every constraint tree, and every sequence of validations and configuration calls",
 "Tests validate well-behaved values once; exotic Go values, repeated use and reconfiguration between validations are not tried.",
 ["object.go","array.go","string.go","number.go","enum.go","structinfo.go","jsval.go"],[("reflect-based dispatch in every Validate","*.go")],observe=["Validate result, panics, input afterwards"])
p("C16","The command line tool writes complete validators or fails cleanly",
 "The jsval command exits with status 0 exactly when it has written the complete code for one validator per requested JSON pointer (or one for the whole document), in the named file or on standard output, with references resolved against the whole document and names formed from the prefix and position. The code is what the library generates for those schemas. On any failure (unreadable or malformed input, bad pointer, unresolvable reference, unwritable output) it exits with a non-zero status, and unless it was the write itself that failed an existing output file keeps its previous contents.",
 ["inputs","configurations","fault_sequences"],"every input file, pointer list, prefix and output destination, and every failing step",
 "No test runs the command.",
 ["cmd/jsval/jsval.go"],[("_cli","cmd/jsval/jsval.go")],observe=["exit status, output file, stdout"])
p("C17","The playground server answers every request independently and completely",
 "For every request sequence and every degree of concurrency, POSTing a document to /generate.json is answered with one JSON object: if the document is a usable schema, success is true and code is exactly what the library generates for it with the document as context, and there is no message; otherwise success is false with a non-empty message and no code. The root path serves the HTML page, all other paths are not found, and no request, however malformed, affects the answer to another request or stops the server.",
 ["histories","schedules","inputs"],"every sequence and interleaving of requests with every body",
 "The server has no tests.",
 ["server/server.go"],[("httpGenerateValidator","server/server.go"),("getTemplates","server/server.go")],observe=["HTTP responses"])
p("C18","Building a validator is total and repeatable and leaves the schema alone",
 "For every schema that can be read, with the decoded document as context, building returns a validator or an error and never panics, hangs or crashes. Building the same schema again, with the same or another builder, gives a validator that decides every value the same way, independent of other builds, and neither the schema nor the context document is modified.",
 ["programs","histories"],"every JSON document that reads as a schema, and every sequence of builds",
 "Tests build each fixed schema once and only well-formed ones.",
 ["builder/builder.go","builder/*.go"],[("BuildWithCtx / compileReferences","builder/builder.go")],observe=["result of Build, verdicts of repeated builds"])
p("C19","A struct with property methods validates as the object its methods describe",
 "Validating a struct (or a pointer to one) whose type has a GetPropNames, GetPropValue or SetPropValue method on its value gives the verdict of the object these methods, when they agree with one another, describe: the properties present are those GetPropNames lists and their values what GetPropValue returns for them, with a Maybe value counting as its contents or, when it is not valid, as absent. A missing method, and every call that returns an error, is answered from the exported fields instead. Defaults for absent properties are handed to SetPropValue, each under its property name and with its value as configured, its error makes validation fail, and without that method they are stored in the fields; nothing else is ever set.",
 ["inputs","programs"],"every combination of the three methods, everything they may answer including errors, and every object constraint",
 "No test uses a type with any of these methods.",
 ["object.go","structinfo.go"],[("getPropNames / getProp / setProp","object.go")],observe=["verdict, what is stored through SetPropValue and in the fields"])
p("C20","Constraints, maps and validators report exactly what they were configured with",
 "After any sequence of configuration calls, with any other calls in between: IsPropRequired is true exactly for the names given to Required; GetPropDependencies returns all names given to PropDependency for that property and GetSchemaDependency the last constraint given or nil; Constraints returns the children in the order added and Reduce the only child or the combination itself; HasDefault and DefaultValue report the last Default given (for a reference, its target's), whatever its type; Len, GetReference, Root and Name report what was last registered or set, through every validator that shares the map. Every setter returns the object it was called on, and changing a list after passing it to a setter has no effect. The error of a named validator mentions its name, and sorting a JSValSlice orders it by name.",
 ["histories","configurations"],"every sequence of configuration and query calls on constraints, reference maps and validators that share them",
 "Tests configure an object once and look only at verdicts.",
 ["object.go","combinations.go","reference.go","jsval.go","basic.go"],[("Required / PropDependency / GetSchemaDependency","object.go"),("Constraints / Reduce","combinations.go"),("ConstraintMap","reference.go"),("JSVal.SetName / SetRoot / SetConstraintMap","jsval.go")],observe=["results of the query methods after a history of calls"])
p("C21","Building with tracing changes no result",
 "With the build tag that turns tracing output on (debug0 or debug), every validation, reference lookup, Maybe operation and build of a schema returns the same verdicts, defaults, values and errors as without it, for every constraint and every input: nothing hangs, panics or is decided differently because it is being traced.",
 ["inputs","programs","configurations"],"every constraint, schema and input, each validated in a traced build",
 "The tests are run without the tag, so no traced statement is ever executed by them.",
 ["*.go","builder/*.go"],[("pdebug.Enabled blocks","*.go, builder/*.go")],observe=["results of the same calls in a build with -tags debug0"])
p("C22","The repository's own generators write working code",
 "The maybe.go that internal/cmd/genmaybe writes compiles in place of the one in the repository and its Maybe types then behave, alone and inside validated structs, as required of the ones in the repository. For every usable schema, internal/cmd/gentest writes a file that compiles and whose validator V0 decides every value as the schema says; for a file that is not a usable schema it exits with a non-zero status.",
 ["programs","inputs"],"every operation history on the generated Maybe types, every schema given to gentest and every value",
 "No test runs either generator; the test suite compiles only what was generated once and committed.",
 ["internal/cmd/genmaybe/genmaybe.go","internal/cmd/gentest/gentest.go"],[("genMaybe","internal/cmd/genmaybe/genmaybe.go"),("_main","internal/cmd/gentest/gentest.go")],observe=["behaviour of the generated code once compiled"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); print(x['id'],len(x['title']),x['title'], x['statement'].count('. ')+1)
