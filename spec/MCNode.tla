------------------------------- MODULE MCNode -------------------------------
(* One constraint, configured by every history of up to N setter calls from  *)
(* a menu.  The laws of C01-C06 are invariants over all configurations and   *)
(* all probe values; every maximal history is emitted to be replayed: the    *)
(* probes are offered before and after the last call.                        *)
EXTENDS Gen, Json
CONSTANTS Kind, N

S(s) == [t |-> "str", s |-> s]
Num(g, q) == [t |-> "num", g |-> g, q |-> q]
F(q) == Num("f64", q)
Bool(b) == [t |-> "bool", b |-> b]
Nil == [t |-> "nil"]
Ptr(v) == [t |-> "ptr", to |-> v]
Arr(e) == [t |-> "arr", e |-> e]
Obj(p) == [t |-> "obj", g |-> "any", p |-> p]
P(n, v) == [n |-> n, v |-> v]
LOCAL a == <<97>>
LOCAL b == <<98>>
LOCAL c == <<99>>
Leaf(k) == [k |-> k, calls |-> <<>>]
Def(k, v) == [k |-> k, calls |-> <<[m |-> "Default", v |-> v]>>]
OneChar(ch) == [lo |-> 1, hi |-> 1, neg |-> FALSE, r |-> <<<<ch, ch>>>>]
RxA == [al |-> TRUE, ar |-> FALSE, alts |-> <<<<OneChar(97)>>>>]                 \* ^a
RxB == [al |-> FALSE, ar |-> TRUE, alts |-> <<<<OneChar(98)>>>>]                 \* b$
RxAC == [al |-> TRUE, ar |-> TRUE, alts |-> <<<<[lo |-> 1, hi |-> 1, neg |-> FALSE, r |-> <<<<97, 97>>, <<99, 99>>>>]>>>>]   \* ^[ac]$

Idiv == IF Kind \in {"number", "integer"} THEN 2 ELSE 1
Sh == IF Kind \in {"number", "integer"} THEN -1 ELSE 0

\* ---------------------------------------------------------------- menus ---
StringMenu ==
  <<[m |-> "MaxLength", n |-> 1], [m |-> "MaxLength", n |-> 2], [m |-> "MinLength", n |-> 1], [m |-> "MinLength", n |-> 2],
    [m |-> "Regexp", rx |-> RxA, src |-> "^a"], [m |-> "Regexp", rx |-> RxB, src |-> "b$"],
    [m |-> "Enum", vs |-> <<S(a), S(<<97, 98>>)>>], [m |-> "Enum", vs |-> <<S(<<>>), S(<<233, 98>>)>>],
    [m |-> "Format", f |-> "ipv4"], [m |-> "Format", f |-> "whatever"], [m |-> "Default", v |-> S(b)]>>
StringVals ==
  <<S(<<>>), S(a), S(b), S(<<97, 98>>), S(<<233>>), S(<<233, 98>>), S(<<97, 98, 98>>), S(<<128512, 98>>), S(<<49, 46, 50, 46, 51, 46, 52>>), Ptr(S(a)), F(0), Nil, Arr(<<S(a)>>)>>
NumberMenu ==
  <<[m |-> "Minimum", q |-> -1], [m |-> "Minimum", q |-> 2], [m |-> "Maximum", q |-> 2], [m |-> "Maximum", q |-> 4],
    [m |-> "ExclusiveMinimum", b |-> TRUE], [m |-> "ExclusiveMinimum", b |-> FALSE], [m |-> "ExclusiveMaximum", b |-> TRUE], [m |-> "ExclusiveMaximum", b |-> FALSE],
    [m |-> "MultipleOf", q |-> 4], [m |-> "MultipleOf", q |-> 3], [m |-> "MultipleOf", q |-> 0],
    [m |-> "Enum", vs |-> <<F(2), F(-4)>>], [m |-> "Enum", vs |-> <<F(4), F(-2)>>]>>
NumberVals ==
  <<F(-4), F(-2), F(-1), F(0), F(1), F(2), F(3), F(4), F(6), Num("int", -2), Num("int", 2), Num("i8", 4), Num("u64", 6), Num("f32", 3), Ptr(F(2)), Ptr(Num("i64", -4)), S(a), Bool(TRUE), Nil>>
Leaves == <<Leaf("string"), Leaf("integer"), [k |-> "string", calls |-> <<[m |-> "MinLength", n |-> 2]>>], Leaf("empty"), Leaf("null"), Leaf("bool")>>
Wrapped(x) == <<x, [k |-> "not", calls |-> <<>>, c |-> x]>>
ComboMenu ==
  FlattenSeq([i \in 1..Len(Leaves) |-> LET w == Wrapped(Leaves[i]) IN <<[m |-> "Add", c |-> w[1]], [m |-> "Add", c |-> w[2]]>>])
  \o <<[m |-> "Add", c |-> [k |-> "any", calls |-> <<[m |-> "Add", c |-> Leaf("string")], [m |-> "Add", c |-> Leaf("bool")]>>]],
       [m |-> "Add", c |-> [k |-> "all", calls |-> <<>>]], [m |-> "Add", c |-> [k |-> "oneof", calls |-> <<[m |-> "Add", c |-> Leaf("string")], [m |-> "Add", c |-> Leaf("string")]>>]],
       [m |-> "Add", c |-> [k |-> "enum", calls |-> <<[m |-> "Enum", vs |-> <<S(a), F(1), Nil>>]>>]]>>
ComboVals == <<S(a), S(<<97, 98>>), F(1), Num("int", 2), Nil, [t |-> "nilof", g |-> "ptr"], Bool(TRUE), Arr(<<>>)>>
ArrayMenu ==
  <<[m |-> "MinItems", n |-> 1], [m |-> "MinItems", n |-> 2], [m |-> "MinItems", n |-> -1], [m |-> "MaxItems", n |-> 0], [m |-> "MaxItems", n |-> 2], [m |-> "MaxItems", n |-> -1],
    [m |-> "UniqueItems", b |-> TRUE], [m |-> "UniqueItems", b |-> FALSE],
    [m |-> "Items", c |-> Leaf("string")], [m |-> "Items", c |-> Leaf("integer")],
    [m |-> "PositionalItems", cs |-> <<Leaf("string"), Leaf("integer")>>], [m |-> "PositionalItems", cs |-> <<Leaf("empty")>>], [m |-> "PositionalItems", cs |-> <<>>],
    [m |-> "AdditionalItems", c |-> Leaf("bool")], [m |-> "AdditionalItems", c |-> NilC], [m |-> "AdditionalItems", c |-> EmptyC]>>
ArrayVals ==
  <<Arr(<<>>), Arr(<<S(a)>>), Arr(<<F(1)>>), Arr(<<S(a), S(a)>>), Arr(<<S(a), S(b)>>), Arr(<<S(a), F(1)>>), Arr(<<F(1), Num("int", 1)>>), Arr(<<F(1), F(2)>>),
    Arr(<<S(a), F(1), Bool(TRUE)>>), Arr(<<S(a), F(1), S(a)>>), Arr(<<S(a), Bool(TRUE), Bool(FALSE)>>), Arr(<<F(2), F(3), F(2)>>),
    Arr(<<S(a), F(2), Bool(TRUE), Bool(TRUE)>>), [t |-> "nilof", g |-> "slice"], S(a), Obj(<<>>), Nil>>
NeedB == [k |-> "object", calls |-> <<[m |-> "Required", ns |-> <<b>>], [m |-> "AdditionalProperties", c |-> EmptyC]>>]
ObjectMenu ==
  <<[m |-> "AddProp", n |-> a, c |-> Leaf("string")], [m |-> "AddProp", n |-> a, c |-> Leaf("integer")], [m |-> "AddProp", n |-> b, c |-> Leaf("string")],
    [m |-> "Required", ns |-> <<a>>], [m |-> "Required", ns |-> <<b, c>>],
    [m |-> "PatternProperties", rx |-> RxAC, src |-> "^[ac]$", c |-> Leaf("integer")], [m |-> "PatternProperties", rx |-> RxA, src |-> "^a", c |-> Leaf("string")],
    [m |-> "AdditionalProperties", c |-> EmptyC], [m |-> "AdditionalProperties", c |-> NilC], [m |-> "AdditionalProperties", c |-> Leaf("integer")],
    [m |-> "PropDependency", n |-> a, ns |-> <<b>>], [m |-> "PropDependency", n |-> a, ns |-> <<c>>], [m |-> "SchemaDependency", n |-> c, c |-> NeedB],
    [m |-> "MinProperties", n |-> 2], [m |-> "MinProperties", n |-> -1], [m |-> "MaxProperties", n |-> 1], [m |-> "MaxProperties", n |-> 2]>>
ObjectVals ==
  <<Obj(<<>>), Obj(<<P(a, S(a))>>), Obj(<<P(a, F(1))>>), Obj(<<P(b, S(b))>>), Obj(<<P(c, F(1))>>), Obj(<<P(a, S(a)), P(b, S(b))>>), Obj(<<P(a, F(1)), P(b, S(b))>>),
    Obj(<<P(a, S(a)), P(c, F(1))>>), Obj(<<P(a, F(1)), P(c, F(2))>>), Obj(<<P(b, S(b)), P(c, S(c))>>), Obj(<<P(a, S(a)), P(b, S(b)), P(c, F(1))>>), Obj(<<P(a, F(1)), P(b, F(1)), P(c, F(1))>>),
    Ptr(Obj(<<P(a, S(a))>>)), [t |-> "nilof", g |-> "map"], Arr(<<>>), S(a), Nil>>
DefA == Def("string", S(<<120>>))
DefaultMenu ==
  <<[m |-> "AddProp", n |-> a, c |-> DefA], [m |-> "AddProp", n |-> a, c |-> Leaf("string")], [m |-> "AddProp", n |-> a, c |-> Def("string", S(<<121>>))],
    [m |-> "AddProp", n |-> b, c |-> Def("integer", Num("int", 7))], [m |-> "AddProp", n |-> b, c |-> [k |-> "ref", calls |-> <<[m |-> "RefersTo", name |-> <<114>>]>>]],
    [m |-> "AddProp", n |-> c, c |-> [k |-> "object", calls |-> <<[m |-> "AddProp", n |-> a, c |-> DefA]>>]],
    [m |-> "Required", ns |-> <<a>>], [m |-> "Required", ns |-> <<b>>], [m |-> "MaxProperties", n |-> 1], [m |-> "MinProperties", n |-> 1],
    [m |-> "PropDependency", n |-> a, ns |-> <<b>>], [m |-> "PropDependency", n |-> b, ns |-> <<a>>],
    [m |-> "SchemaDependency", n |-> c, c |-> [k |-> "object", calls |-> <<[m |-> "AdditionalProperties", c |-> EmptyC], [m |-> "AddProp", n |-> <<100>>, c |-> Def("bool", Bool(TRUE))]>>]],
    [m |-> "AdditionalProperties", c |-> EmptyC],
    [m |-> "AdditionalProperties", c |-> [k |-> "object", calls |-> <<[m |-> "AddProp", n |-> b, c |-> DefA]>>]]>>
DefaultVals ==
  <<Obj(<<>>), Obj(<<P(a, S(a))>>), Obj(<<P(b, Num("int", 1))>>), Obj(<<P(a, S(a)), P(b, F(3))>>), Obj(<<P(c, Obj(<<>>))>>), Obj(<<P(c, Obj(<<P(a, S(b))>>)), P(a, S(a))>>),
    Obj(<<P(c, Obj(<<>>)), P(b, F(1)), P(a, S(b))>>), Obj(<<P(a, Nil)>>), [t |-> "obj", g |-> "str", p |-> <<>>], [t |-> "obj", g |-> "int", p |-> <<>>], [t |-> "obj", g |-> "str", p |-> <<P(a, S(a))>>],
    Ptr(Obj(<<P(b, F(1))>>)), [t |-> "nilof", g |-> "map"]>>

Menu == CASE Kind = "string" -> StringMenu
          [] Kind \in {"number", "integer"} -> NumberMenu
          [] Kind \in {"any", "all", "oneof"} -> ComboMenu
          [] Kind = "array" -> ArrayMenu
          [] Kind = "object" -> ObjectMenu
          [] Kind = "default" -> DefaultMenu
Vals == CASE Kind = "string" -> StringVals
          [] Kind \in {"number", "integer"} -> NumberVals
          [] Kind \in {"any", "all", "oneof"} -> ComboVals
          [] Kind = "array" -> ArrayVals
          [] Kind = "object" -> ObjectVals
          [] Kind = "default" -> DefaultVals
NKind == IF Kind = "default" THEN "object" ELSE Kind
Refs0 == IF Kind = "default" THEN <<[n |-> <<114>>, c |-> DefA]>> ELSE <<>>
Env0 == [heap |-> <<>>, refs |-> Refs0, idiv |-> Idiv]

\* -------------------------------------------------------------- machine ---
VARIABLE h
Init == h = <<>>
Next == Len(h) < N /\ \E i \in 1..Len(Menu) : h' = Append(h, i)
Spec == Init /\ [][Next]_h

CallsOf(x) == [i \in 1..Len(x) |-> Menu[x[i]]]
NodeOf(x) == [k |-> NKind, calls |-> CallsOf(x)]
Res(x, v) == Eval(NodeOf(x), v, Env0)
Ok(x, v) == Res(x, v).ok
AllV == 1..Len(Vals)

\* ----------------------------------------------------------------- laws ---
SwapAt(x, i) == [x EXCEPT ![i] = x[i + 1], ![i + 1] = x[i]]
SameSetting(p, q) == p.m = q.m /\ (Has(p, "n") /\ p.m \in {"AddProp", "SchemaDependency"} => p.n = q.n)
\* settings of different facets commute
Commute ==
  Kind \notin {"any", "all", "oneof"} =>
  \A i \in 1..(Len(h) - 1) :
    ~SameSetting(Menu[h[i]], Menu[h[i + 1]]) => \A v \in AllV : Ok(h, Vals[v]) = Ok(SwapAt(h, i), Vals[v])
\* a setting replaces an earlier one of the same facet
Additive == {"Required", "PropDependency", "PatternProperties", "Add"}
LastWins ==
  Len(h) > 1 => LET i == Len(h) IN
    \A j \in 1..(i - 1) : (SameSetting(Menu[h[j]], Menu[h[i]]) /\ Menu[h[i]].m \notin Additive)
                            => \A v \in AllV : Res(h, Vals[v]) = Res(RemoveAt(h, j), Vals[v])
\* scalar facets: the conjunction of what each would decide alone
Facets == IF NKind = "string" THEN {{"MaxLength"}, {"MinLength"}, {"Regexp"}, {"Enum"}, {"Format"}}
          ELSE {{"Minimum", "ExclusiveMinimum"}, {"Maximum", "ExclusiveMaximum"}, {"MultipleOf"}, {"Enum"}}
Conjunction ==
  NKind \in {"string", "number", "integer"} =>
    \A v \in AllV : Ok(h, Vals[v]) <=> \A fs \in Facets : Ok(SelectSeq(h, LAMBDA i : Menu[i].m \in fs), Vals[v])
\* propositional laws
Count(v) == Cardinality({i \in 1..Len(h) : Eval(Menu[h[i]].c, v, Env0).ok})
Propositional ==
  NKind \in {"any", "all", "oneof"} =>
    \A v \in AllV : Ok(h, Vals[v]) = CASE NKind = "any" -> Count(Vals[v]) >= 1
                                       [] NKind = "all" -> Count(Vals[v]) = Len(h)
                                       [] NKind = "oneof" -> Count(Vals[v]) = 1
DeMorgan ==
  NKind \in {"any", "all"} =>
    LET neg == [i \in 1..Len(h) |-> [m |-> "Add", c |-> [k |-> "not", calls |-> <<>>, c |-> Menu[h[i]].c]]]
        dual == [k |-> IF NKind = "any" THEN "all" ELSE "any", calls |-> neg]
    IN \A v \in AllV : Ok(h, Vals[v]) = ~Eval(dual, Vals[v], Env0).ok
Reducing == NKind \in {"any", "all", "oneof"} =>
              \A v \in AllV : Res(h, Vals[v]) = Eval([k |-> "reduce", calls |-> <<>>, c |-> NodeOf(h)], Vals[v], Env0)
\* requirements only ever shrink what is accepted
Shrinks ==
  (Len(h) > 0 /\ Menu[h[Len(h)]].m \in {"Required", "PropDependency"}) =>
    \A v \in AllV : Ok(h, Vals[v]) => Ok(SubSeq(h, 1, Len(h) - 1), Vals[v])
\* what validation leaves behind
Outcome ==
  NKind = "object" =>
    \A v \in AllV :
      LET x == Deref(Vals[v])
          r == Res(h, Vals[v])
          y == Deref(r.v)
          D == AllDefaults(NodeOf(h), Env0)
      IN /\ Grew(Vals[v], r.v, D, Idiv)
         /\ (r.ok /\ x.t = "obj") =>
              LET n == NodeOf(h)
              IN \A nm \in Declared(n) \ (RequiredNames(n) \cup NamesOf(x.p)) :
                   DefaultOf(PropC(n, nm), Env0).has =>
                     /\ IndexOfName(y.p, nm) # 0
                     /\ Same(y.p[IndexOfName(y.p, nm)].v, DefaultOf(PropC(n, nm), Env0).v)
         /\ (D = <<>>) => r.v = Vals[v]

\* generated code makes an equivalent constraint, and generating from that changes nothing
Generated ==
  LET e == [Env0 EXCEPT !.heap = <<NodeOf(h)>>]
      f == TLCEval(File(<<NodeOf(h)>>, Refs0, e))
      e2 == Rebuilt(f, Idiv)
  IN /\ \A v \in AllV : Eval([id |-> 1], Vals[v], e2) = Res(h, Vals[v])
     /\ File(f.vals, f.refs, e2) = f

\* ----------------------------------------------------------------- cases --
ValEv(v) == [e |-> "val", c |-> [id |-> 1], v |-> v]
Probes(vs) == [i \in 1..Len(vs) |-> ValEv(vs[i])]
Emit == Len(h) = N =>
  PrintT(<<"CASE", ToJson([sh |-> Sh, idiv |-> Idiv, refs |-> Refs0, heap |-> <<NodeOf(SubSeq(h, 1, N - 1))>>,
                           ev |-> <<ValEv(Vals[(h[N] % Len(Vals)) + 1]), [e |-> "call", o |-> 1, call |-> Menu[h[N]]]>> \o Probes(Vals)
                                  \o (IF Kind \in {"any", "all", "oneof"}
                                      THEN [i \in 1..Len(Vals) |-> [e |-> "val", c |-> [k |-> "reduce", calls |-> <<>>, c |-> [id |-> 1]], v |-> Vals[i]]]
                                      ELSE <<>>)])>>)
=============================================================================
