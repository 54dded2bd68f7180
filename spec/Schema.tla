------------------------------ MODULE Schema --------------------------------
(* JSON schemas (draft 4 as go-jsval documents it) and what they mean.       *)
(*                                                                           *)
(* A schema is a record with one field per keyword it uses:                  *)
(*   type (sequence of strings), enum, minLength, maxLength, pattern (rx),   *)
(*   format, minimum, maximum, multipleOf (units), exclusiveMinimum/Maximum, *)
(*   minItems, maxItems, uniqueItems, items ([one] or [many]),               *)
(*   additionalItems, additionalProperties ([b] or [s]),                     *)
(*   minProperties, maxProperties, required, properties, definitions         *)
(*   (sequences of [n, s]), patternProperties ([n, rx, s], n the source),    *)
(*   dependencies ([n, ns] or [n, s]), allOf, anyOf, oneOf, not, default,    *)
(*   ref (code points), extra ([n, s]: other members that hold a schema),    *)
(*   junk (names of members that hold something that is not a schema)        *)
(*                                                                           *)
(* Sat(s, v, doc)     does the JSON value v satisfy s                        *)
(* Usable(s, doc)     can a validator be built for s                         *)
(* Compile(s)         the validator, as a constraint of Cons                 *)
EXTENDS Cons

Kw == [properties |-> <<112,114,111,112,101,114,116,105,101,115>>,
       definitions |-> <<100,101,102,105,110,105,116,105,111,110,115>>,
       patternProperties |-> <<112,97,116,116,101,114,110,80,114,111,112,101,114,116,105,101,115>>,
       dependencies |-> <<100,101,112,101,110,100,101,110,99,105,101,115>>,
       items |-> <<105,116,101,109,115>>,
       additionalProperties |-> <<97,100,100,105,116,105,111,110,97,108,80,114,111,112,101,114,116,105,101,115>>,
       additionalItems |-> <<97,100,100,105,116,105,111,110,97,108,73,116,101,109,115>>,
       allOf |-> <<97,108,108,79,102>>,
       anyOf |-> <<97,110,121,79,102>>,
       oneOf |-> <<111,110,101,79,102>>,
       not |-> <<110,111,116>>]

\* ------------------------------------------------------------- pointers ---
LOCAL HexDigit(c) == (48 <= c /\ c <= 57) \/ (97 <= c /\ c <= 102) \/ (65 <= c /\ c <= 70)
LOCAL HexNum(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
\* percent-decoding to bytes; -1 marks a malformed escape
RECURSIVE PctBytes(_, _)
PctBytes(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # 37 THEN <<[b |-> FALSE, c |-> s[i]]>> \o PctBytes(s, i + 1)
  ELSE IF i + 2 <= Len(s) /\ HexDigit(s[i + 1]) /\ HexDigit(s[i + 2])
       THEN <<[b |-> TRUE, c |-> HexNum(s[i + 1]) * 16 + HexNum(s[i + 2])]>> \o PctBytes(s, i + 3)
       ELSE <<[b |-> TRUE, c |-> -1]>>
\* the escaped bytes are UTF-8
RECURSIVE Utf8(_, _)
Utf8(x, i) ==
  IF i > Len(x) THEN <<>>
  ELSE IF ~x[i].b \/ x[i].c < 128 THEN <<x[i].c>> \o Utf8(x, i + 1)
  ELSE IF x[i].c \in 192..223 THEN <<(x[i].c - 192) * 64 + (x[i + 1].c - 128)>> \o Utf8(x, i + 2)
  ELSE IF x[i].c \in 224..239 THEN <<(x[i].c - 224) * 4096 + (x[i + 1].c - 128) * 64 + (x[i + 2].c - 128)>> \o Utf8(x, i + 3)
  ELSE <<(x[i].c - 240) * 262144 + (x[i + 1].c - 128) * 4096 + (x[i + 2].c - 128) * 64 + (x[i + 3].c - 128)>> \o Utf8(x, i + 4)
\* ~1 is a slash, ~0 a tilde
RECURSIVE Tilde(_, _)
Tilde(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 126 /\ i < Len(s) /\ s[i + 1] = 49 THEN <<47>> \o Tilde(s, i + 2)
  ELSE IF s[i] = 126 /\ i < Len(s) /\ s[i + 1] = 48 THEN <<126>> \o Tilde(s, i + 2)
  ELSE <<s[i]>> \o Tilde(s, i + 1)

NoWhere == [kind |-> "none"]
Junk == [kind |-> "junk"]
AtS(s) == [kind |-> "schema", s |-> s]
LOCAL FindIn(m, n) == LET i == IndexOfName(m, n)
                      IN IF i = 0 THEN NoWhere ELSE IF Has(m[i], "s") THEN AtS(m[i].s) ELSE Junk
LOCAL SchemaOrJunk(x) == IF Has(x, "s") THEN AtS(x.s) ELSE Junk
LOCAL ListAt(l) == [kind |-> "list", l |-> l]
LOCAL MapAt(m) == [kind |-> "map", m |-> m]
\* digits only, and no more of them than it takes
RECURSIVE Decimal(_)
Decimal(t) == IF t = <<>> THEN 0 ELSE 10 * Decimal(SubSeq(t, 1, Len(t) - 1)) + t[Len(t)] - 48
LOCAL IndexTok(t) == IF Len(t) \in 1..6 /\ (\A i \in 1..Len(t) : t[i] \in 48..57) /\ (t[1] = 48 => Len(t) = 1) THEN Decimal(t) ELSE -1
StepTo(x, t) ==
  CASE x.kind = "map" -> FindIn(x.m, t)
    [] x.kind = "list" -> LET i == IndexTok(t) IN IF i >= 0 /\ i < Len(x.l) THEN AtS(x.l[i + 1]) ELSE NoWhere
    [] x.kind = "schema" ->
         LET s == x.s
         IN CASE t = Kw.properties /\ Has(s, "properties") -> MapAt(s.properties)
              [] t = Kw.definitions /\ Has(s, "definitions") -> MapAt(s.definitions)
              [] t = Kw.patternProperties /\ Has(s, "patternProperties") -> MapAt(s.patternProperties)
              [] t = Kw.dependencies /\ Has(s, "dependencies") -> MapAt(s.dependencies)
              [] t = Kw.items /\ Has(s, "items") -> IF Has(s.items, "one") THEN AtS(s.items.one) ELSE ListAt(s.items.many)
              [] t = Kw.additionalProperties /\ Has(s, "additionalProperties") -> SchemaOrJunk(s.additionalProperties)
              [] t = Kw.additionalItems /\ Has(s, "additionalItems") -> SchemaOrJunk(s.additionalItems)
              [] t = Kw.allOf /\ Has(s, "allOf") -> ListAt(s.allOf)
              [] t = Kw.anyOf /\ Has(s, "anyOf") -> ListAt(s.anyOf)
              [] t = Kw.oneOf /\ Has(s, "oneOf") -> ListAt(s.oneOf)
              [] t = Kw.not /\ Has(s, "not") -> AtS(s.not)
              [] Has(s, "extra") /\ IndexOfName(s.extra, t) # 0 -> FindIn(s.extra, t)
              [] Has(s, "junk") /\ (\E i \in 1..Len(s.junk) : s.junk[i] = t) -> Junk
              [] OTHER -> NoWhere
    [] OTHER -> NoWhere
RECURSIVE Walk(_, _, _)
Walk(x, T, i) == IF i > Len(T) THEN x ELSE Walk(StepTo(x, Tilde(T[i], 1)), T, i + 1)

\* where a reference points in the document
Resolve(ref, doc) ==
  IF Len(ref) = 0 \/ ref[1] # 35 THEN NoWhere
  ELSE LET f0 == PctBytes(Tail(ref), 1)
       IN IF \E i \in 1..Len(f0) : f0[i].c = -1 THEN NoWhere
          ELSE LET f == Utf8(f0, 1)
               IN IF f = <<>> THEN AtS(doc)
                  ELSE IF f[1] # 47 THEN NoWhere
                  ELSE Walk(AtS(doc), Split(Tail(f), 47), 1)

\* ---------------------------------------------------------------- types ---
LOCAL Any_(s, K) == \E k \in K : Has(s, k)
LOCAL EnumHas(s, t) == Has(s, "enum") /\ \E i \in 1..Len(s.enum) : s.enum[i].t = t
LOCAL NonEmpty(s, k) == Has(s, k) /\ Len(s[k]) > 0
KnownFormats == {"date-time", "email", "hostname", "ipv4", "ipv6", "uri"}
\* the types that the keywords of s imply
Implied(s, idiv) ==
  LET obj == \/ NonEmpty(s, "properties") \/ NonEmpty(s, "patternProperties") \/ NonEmpty(s, "required") \/ NonEmpty(s, "dependencies")
             \/ Any_(s, {"minProperties", "maxProperties"})
             \/ (Has(s, "additionalProperties") /\ (Has(s.additionalProperties, "s") \/ ~s.additionalProperties.b))
             \/ EnumHas(s, "obj")
      arr == \/ Any_(s, {"items", "minItems", "maxItems", "uniqueItems"})
             \/ (Has(s, "additionalItems") /\ (Has(s.additionalItems, "s") \/ ~s.additionalItems.b))
             \/ EnumHas(s, "arr")
      str == \/ Any_(s, {"minLength", "maxLength", "pattern"})
             \/ (Has(s, "format") /\ s.format \in KnownFormats)
             \/ EnumHas(s, "str")
      \* the first of these keywords decides between integer and number
      num == CASE Has(s, "multipleOf") -> {IF IsIntQ(s.multipleOf, idiv) THEN "integer" ELSE "number"}
               [] Has(s, "minimum") -> {IF IsIntQ(s.minimum, idiv) THEN "integer" ELSE "number"}
               [] Has(s, "maximum") -> {IF IsIntQ(s.maximum, idiv) THEN "integer" ELSE "number"}
               [] Any_(s, {"exclusiveMinimum", "exclusiveMaximum"}) -> {"number"}
               [] EnumHas(s, "num") -> {"number"}
               [] OTHER -> {}
  IN (IF obj THEN {"object"} ELSE {}) \cup (IF arr THEN {"array"} ELSE {}) \cup (IF str THEN {"string"} ELSE {})
     \cup num \cup (IF EnumHas(s, "bool") THEN {"boolean"} ELSE {}) \cup (IF EnumHas(s, "nil") THEN {"null"} ELSE {})
TypesOf(s, idiv) == IF NonEmpty(s, "type") THEN {s.type[i] : i \in 1..Len(s.type)} ELSE Implied(s, idiv)

\* ------------------------------------------------------------ semantics ---
LOCAL InEnumS(s, v) == Has(s, "enum") => \E i \in 1..Len(s.enum) : JEq(s.enum[i], v)
LOCAL StringKw(s, v) ==
  /\ v.t = "str"
  /\ Has(s, "minLength") => Len(v.s) >= s.minLength
  /\ Has(s, "maxLength") => Len(v.s) <= s.maxLength
  /\ Has(s, "pattern") => RxMatch(s.pattern, v.s)
  /\ Has(s, "format") => FormatOk(s.format, v.s)
LOCAL NumKw(s, v) ==
  /\ v.t = "num"
  /\ Has(s, "minimum") => IF Has(s, "exclusiveMinimum") /\ s.exclusiveMinimum THEN v.q > s.minimum ELSE v.q >= s.minimum
  /\ Has(s, "maximum") => IF Has(s, "exclusiveMaximum") /\ s.exclusiveMaximum THEN v.q < s.maximum ELSE v.q <= s.maximum
  /\ (Has(s, "multipleOf") /\ s.multipleOf # 0) => v.q % s.multipleOf = 0

RECURSIVE Sat(_, _, _, _)
SatArray(s, v, doc, idiv) ==
  /\ v.t = "arr"
  /\ Has(s, "minItems") => Len(v.e) >= s.minItems
  /\ Has(s, "maxItems") => Len(v.e) <= s.maxItems
  /\ (Has(s, "uniqueItems") /\ s.uniqueItems) => \A i, j \in 1..Len(v.e) : i < j => ~JEq(v.e[i], v.e[j])
  /\ Has(s, "items") =>
       IF Has(s.items, "one") THEN \A i \in 1..Len(v.e) : Sat(s.items.one, v.e[i], doc, idiv)
       ELSE \A i \in 1..Len(v.e) :
              IF i <= Len(s.items.many) THEN Sat(s.items.many[i], v.e[i], doc, idiv)
              ELSE IF ~Has(s, "additionalItems") THEN TRUE
              ELSE IF Has(s.additionalItems, "s") THEN Sat(s.additionalItems.s, v.e[i], doc, idiv)
              ELSE s.additionalItems.b
SatObject(s, v, doc, idiv) ==
  LET names == NamesOf(v.p)
      decl == IF Has(s, "properties") THEN s.properties ELSE <<>>
      pats == IF Has(s, "patternProperties") THEN s.patternProperties ELSE <<>>
      deps == IF Has(s, "dependencies") THEN s.dependencies ELSE <<>>
  IN /\ v.t = "obj"
     /\ Has(s, "minProperties") => Len(v.p) >= s.minProperties
     /\ Has(s, "maxProperties") => Len(v.p) <= s.maxProperties
     /\ Has(s, "required") => \A i \in 1..Len(s.required) : s.required[i] \in names
     /\ \A i \in 1..Len(v.p) :
          LET n == v.p[i].n
              x == v.p[i].v
              M == {k \in 1..Len(pats) : RxMatch(pats[k].rx, n)}
          IN IF IndexOfName(decl, n) # 0 THEN Sat(decl[IndexOfName(decl, n)].s, x, doc, idiv)
             ELSE IF M # {} THEN \A k \in M : Sat(pats[k].s, x, doc, idiv)
             ELSE IF ~Has(s, "additionalProperties") THEN TRUE
             ELSE IF Has(s.additionalProperties, "s") THEN Sat(s.additionalProperties.s, x, doc, idiv)
             ELSE s.additionalProperties.b
     /\ \A i \in 1..Len(deps) :
          deps[i].n \in names =>
            IF Has(deps[i], "s") THEN Sat(deps[i].s, v, doc, idiv)
            ELSE \A k \in 1..Len(deps[i].ns) : deps[i].ns[k] \in names
SatType(t, s, v, doc, idiv) ==
  /\ CASE t = "string" -> StringKw(s, v)
       [] t = "number" -> NumKw(s, v)
       [] t = "integer" -> NumKw(s, v) /\ IsIntQ(v.q, idiv)
       [] t = "boolean" -> v.t = "bool"
       [] t = "null" -> v.t = "nil"
       [] t = "array" -> SatArray(s, v, doc, idiv)
       [] t = "object" -> v.t = "obj" /\ SatObject(s, v, doc, idiv)
  /\ InEnumS(s, v)
Sat(s, v, doc, idiv) ==
  IF Has(s, "ref") THEN LET r == Resolve(s.ref, doc) IN r.kind = "schema" /\ Sat(r.s, v, doc, idiv)
  ELSE /\ Has(s, "not") => ~Sat(s.not, v, doc, idiv)
       /\ Has(s, "allOf") => \A i \in 1..Len(s.allOf) : Sat(s.allOf[i], v, doc, idiv)
       /\ NonEmpty(s, "anyOf") => \E i \in 1..Len(s.anyOf) : Sat(s.anyOf[i], v, doc, idiv)
       /\ NonEmpty(s, "oneOf") => Cardinality({i \in 1..Len(s.oneOf) : Sat(s.oneOf[i], v, doc, idiv)}) = 1
       /\ LET T == TypesOf(s, idiv)
          IN IF T = {} THEN InEnumS(s, v) ELSE \E t \in T : SatType(t, s, v, doc, idiv)

\* ----------------------------------------------------------- references ---
LOCAL Subs(l) == [i \in 1..Len(l) |-> l[i].s]
LOCAL Opt(s, k, f) == IF Has(s, k) THEN f ELSE <<>>
\* the schemas that apply to the same value as s
Beside(s, idiv) ==
  (IF Has(s, "not") THEN <<s.not>> ELSE <<>>)
  \o (IF Has(s, "allOf") THEN s.allOf ELSE <<>>)
  \o (IF Has(s, "anyOf") THEN s.anyOf ELSE <<>>)
  \o (IF Has(s, "oneOf") THEN s.oneOf ELSE <<>>)
  \o (IF Has(s, "dependencies") /\ "object" \in TypesOf(s, idiv)
      THEN Subs(SelectSeq(s.dependencies, LAMBDA d : Has(d, "s"))) ELSE <<>>)
\* the schemas that apply to its properties and items
Below(s, idiv) ==
  LET T == TypesOf(s, idiv)
      sub(k) == IF Has(s, k) /\ Has(s[k], "s") THEN <<s[k].s>> ELSE <<>>
  IN (IF "object" \in T
      THEN (IF Has(s, "properties") THEN Subs(s.properties) ELSE <<>>)
           \o (IF Has(s, "patternProperties") THEN Subs(s.patternProperties) ELSE <<>>)
           \o sub("additionalProperties")
      ELSE <<>>)
     \o (IF "array" \in T /\ Has(s, "items")
         THEN IF Has(s.items, "one") THEN <<s.items.one>> ELSE s.items.many \o sub("additionalItems")
         ELSE <<>>)
\* every schema written inside s, whether it can matter or not
Inside(s) ==
  LET sub(k) == IF Has(s, k) /\ Has(s[k], "s") THEN <<s[k].s>> ELSE <<>>
  IN (IF Has(s, "not") THEN <<s.not>> ELSE <<>>)
     \o (IF Has(s, "allOf") THEN s.allOf ELSE <<>>) \o (IF Has(s, "anyOf") THEN s.anyOf ELSE <<>>) \o (IF Has(s, "oneOf") THEN s.oneOf ELSE <<>>)
     \o (IF Has(s, "dependencies") THEN Subs(SelectSeq(s.dependencies, LAMBDA d : Has(d, "s"))) ELSE <<>>)
     \o (IF Has(s, "properties") THEN Subs(s.properties) ELSE <<>>)
     \o (IF Has(s, "patternProperties") THEN Subs(s.patternProperties) ELSE <<>>)
     \o sub("additionalProperties") \o sub("additionalItems")
     \o (IF Has(s, "items") THEN IF Has(s.items, "one") THEN <<s.items.one>> ELSE s.items.many ELSE <<>>)

\* references on the value of s itself / anywhere that can matter / anywhere
RECURSIVE DirectRefs(_, _)
DirectRefs(s, idiv) ==
  IF Has(s, "ref") THEN {s.ref}
  ELSE LET B == Beside(s, idiv) IN UNION {DirectRefs(B[i], idiv) : i \in 1..Len(B)}
RECURSIVE UsedRefs(_, _)
UsedRefs(s, idiv) ==
  IF Has(s, "ref") THEN {s.ref}
  ELSE LET B == Beside(s, idiv) \o Below(s, idiv) IN UNION {UsedRefs(B[i], idiv) : i \in 1..Len(B)}
RECURSIVE AllRefs(_)
AllRefs(s) ==
  IF Has(s, "ref") THEN {s.ref}
  ELSE LET B == Inside(s) IN UNION {AllRefs(B[i]) : i \in 1..Len(B)}

RefOk(r, doc) == Resolve(r, doc).kind = "schema"
\* all references reachable from those in R (those in D are done); all: from every part of a schema
RECURSIVE Close(_, _, _, _, _)
Close(D, R, doc, idiv, all) ==
  LET N == TLCEval(UNION {LET t == Resolve(r, doc) IN IF t.kind # "schema" THEN {} ELSE IF all THEN AllRefs(t.s) ELSE UsedRefs(t.s, idiv) : r \in R})
      E == D \cup R
  IN IF N \subseteq E THEN E ELSE Close(E, N \ E, doc, idiv, all)
UsedClosure(s, doc, idiv) == Close({}, UsedRefs(s, idiv), doc, idiv, FALSE)
AllClosure(s, doc, idiv) == Close({}, AllRefs(s), doc, idiv, TRUE)

RECURSIVE DirectClose(_, _, _, _)
DirectClose(D, R, doc, idiv) ==
  LET N == TLCEval(UNION {LET t == Resolve(r, doc) IN IF t.kind # "schema" THEN {} ELSE DirectRefs(t.s, idiv) : r \in R})
      E == D \cup R
  IN IF N \subseteq E THEN E ELSE DirectClose(E, N \ E, doc, idiv)
Loops(r, doc, idiv) == RefOk(r, doc) /\ r \in DirectClose({}, DirectRefs(Resolve(r, doc).s, idiv), doc, idiv)

Sound(R, doc, idiv) == \A r \in R : RefOk(r, doc) /\ ~Loops(r, doc, idiv)
\* must a build succeed / may it
Usable(s, doc, idiv) == Sound(UsedClosure(s, doc, idiv), doc, idiv)
AllSound(s, doc, idiv) == Sound(AllClosure(s, doc, idiv), doc, idiv)

\* ---------------------------------------------------------- compilation ---
LOCAL C1(m, c) == [m |-> m, c |-> c]
LOCAL Reduced(k, kids) == [k |-> "reduce", calls |-> <<>>, c |-> [k |-> k, calls |-> TLCEval(LET l == TLCEval(kids) IN [i \in 1..Len(l) |-> C1("Add", l[i])])]]
LOCAL IntCall(s, kw, m) == IF Has(s, kw) THEN <<[m |-> m, n |-> s[kw]]>> ELSE <<>>
LOCAL QCall(s, kw, m) == IF Has(s, kw) THEN <<[m |-> m, q |-> s[kw]]>> ELSE <<>>
LOCAL BCall(s, kw, m) == IF Has(s, kw) THEN <<[m |-> m, b |-> s[kw]]>> ELSE <<>>
LOCAL EnumCall(s) == IF Has(s, "enum") THEN <<[m |-> "Enum", vs |-> s.enum]>> ELSE <<>>
LOCAL DefCall(s) == IF Has(s, "default") /\ s.default.t # "nil" THEN <<[m |-> "Default", v |-> s.default]>> ELSE <<>>
LOCAL WithEnum(s, c) == IF Has(s, "enum") THEN [k |-> "all", calls |-> <<C1("Add", [k |-> "enum", calls |-> EnumCall(s)]), C1("Add", c)>>] ELSE c

RECURSIVE Compile(_, _)
LOCAL CompileAll(l, idiv) == TLCEval([i \in 1..Len(l) |-> Compile(l[i], idiv)])
CompileType(t, s, idiv) ==
  CASE t = "string" -> [k |-> "string", calls |-> IntCall(s, "maxLength", "MaxLength") \o IntCall(s, "minLength", "MinLength")
                          \o (IF Has(s, "pattern") THEN <<[m |-> "Regexp", rx |-> s.pattern]>> ELSE <<>>)
                          \o (IF Has(s, "format") THEN <<[m |-> "Format", f |-> s.format]>> ELSE <<>>) \o EnumCall(s) \o DefCall(s)]
    [] t \in {"number", "integer"} -> [k |-> t, calls |-> QCall(s, "minimum", "Minimum") \o QCall(s, "maximum", "Maximum") \o QCall(s, "multipleOf", "MultipleOf")
                          \o BCall(s, "exclusiveMinimum", "ExclusiveMinimum") \o BCall(s, "exclusiveMaximum", "ExclusiveMaximum") \o EnumCall(s) \o DefCall(s)]
    [] t = "boolean" -> [k |-> "bool", calls |-> EnumCall(s) \o (IF Has(s, "default") /\ s.default.t = "bool" THEN DefCall(s) ELSE <<>>)]
    [] t = "null" -> WithEnum(s, [k |-> "null", calls |-> <<>>])
    [] t = "array" -> WithEnum(s, [k |-> "array", calls |->
           IntCall(s, "minItems", "MinItems") \o IntCall(s, "maxItems", "MaxItems") \o BCall(s, "uniqueItems", "UniqueItems")
           \o (IF ~Has(s, "items") THEN <<>>
               ELSE IF Has(s.items, "one") THEN <<C1("Items", Compile(s.items.one, idiv))>>
               ELSE <<[m |-> "PositionalItems", cs |-> CompileAll(s.items.many, idiv)],
                      C1("AdditionalItems", IF ~Has(s, "additionalItems") THEN EmptyC
                                            ELSE IF Has(s.additionalItems, "s") THEN Compile(s.additionalItems.s, idiv)
                                            ELSE IF s.additionalItems.b THEN EmptyC ELSE NilC)>>)])
    [] t = "object" -> WithEnum(s, [k |-> "object", calls |->
           IntCall(s, "minProperties", "MinProperties") \o IntCall(s, "maxProperties", "MaxProperties")
           \o (IF Has(s, "required") THEN <<[m |-> "Required", ns |-> s.required]>> ELSE <<>>)
           \o (IF Has(s, "properties") THEN [i \in 1..Len(s.properties) |-> [m |-> "AddProp", n |-> s.properties[i].n, c |-> Compile(s.properties[i].s, idiv)]] ELSE <<>>)
           \o (IF Has(s, "patternProperties") THEN [i \in 1..Len(s.patternProperties) |->
                    [m |-> "PatternProperties", rx |-> s.patternProperties[i].rx, c |-> Compile(s.patternProperties[i].s, idiv)]] ELSE <<>>)
           \o <<C1("AdditionalProperties", IF ~Has(s, "additionalProperties") THEN EmptyC
                                           ELSE IF Has(s.additionalProperties, "s") THEN Compile(s.additionalProperties.s, idiv)
                                           ELSE IF s.additionalProperties.b THEN EmptyC ELSE NilC)>>
           \o (IF Has(s, "dependencies") THEN [i \in 1..Len(s.dependencies) |->
                    IF Has(s.dependencies[i], "s") THEN [m |-> "SchemaDependency", n |-> s.dependencies[i].n, c |-> Compile(s.dependencies[i].s, idiv)]
                    ELSE [m |-> "PropDependency", n |-> s.dependencies[i].n, ns |-> s.dependencies[i].ns]] ELSE <<>>)])
Compile(s, idiv) ==
  IF Has(s, "ref") THEN [k |-> "ref", calls |-> <<[m |-> "RefersTo", name |-> s.ref]>>]
  ELSE LET T == SetToSeq(TypesOf(s, idiv))
           types == IF Len(T) > 0 THEN <<Reduced("any", TLCEval([i \in 1..Len(T) |-> CompileType(T[i], s, idiv)]))>>
                    ELSE IF Has(s, "enum") THEN <<[k |-> "enum", calls |-> EnumCall(s)]>> ELSE <<>>
       IN Reduced("all",
            (IF Has(s, "not") THEN <<[k |-> "not", calls |-> <<>>, c |-> Compile(s.not, idiv)]>> ELSE <<>>)
            \o (IF NonEmpty(s, "allOf") THEN <<Reduced("all", CompileAll(s.allOf, idiv))>> ELSE <<>>)
            \o (IF NonEmpty(s, "anyOf") THEN <<Reduced("any", CompileAll(s.anyOf, idiv))>> ELSE <<>>)
            \o (IF NonEmpty(s, "oneOf") THEN <<Reduced("oneof", CompileAll(s.oneOf, idiv))>> ELSE <<>>)
            \o types)
\* the environment of a built validator: every used reference registered
EnvOf(s, doc, idiv) ==
  LET R == SetToSeq(UsedClosure(s, doc, idiv))
  IN [heap |-> <<>>, idiv |-> idiv,
      refs |-> TLCEval([i \in 1..Len(R) |-> [n |-> R[i], c |-> Compile(Resolve(R[i], doc).s, idiv)]])]
=============================================================================
