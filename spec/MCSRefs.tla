------------------------------ MODULE MCSRefs -------------------------------
(* Every document with N definitions and a root, each from a menu of bodies  *)
(* that refer to one another, to the whole document, or to nothing.          *)
EXTENDS Schema, Json
CONSTANT N
S(s) == [t |-> "str", s |-> s]
F(q) == [t |-> "num", g |-> "f64", q |-> q]
Arr(e) == [t |-> "arr", e |-> e]
Obj(p) == [t |-> "obj", g |-> "any", p |-> p]
P(n, v) == [n |-> n, v |-> v]
LOCAL a == <<97>>
LOCAL b == <<98>>
LOCAL c == <<99>>
Hash == <<35>>
DefN == Hash \o <<47>> \o Kw.definitions \o <<47>>
R(n) == [ref |-> DefN \o n]
T(t) == [type |-> <<t>>]
LOCAL x == <<120>>
Bodies ==
  <<T("string"), T("integer"), R(a), R(b), [ref |-> Hash], R(c),
    [properties |-> <<[n |-> x, s |-> R(a)]>>], [properties |-> <<[n |-> x, s |-> R(b)]>>, required |-> <<x>>], [items |-> [one |-> R(b)], type |-> <<"array">>],
    [not |-> R(b)], [allOf |-> <<R(a)>>, type |-> <<"string">>], [anyOf |-> <<T("string"), R(b)>>],
    [additionalProperties |-> [s |-> [ref |-> Hash]]], [dependencies |-> <<[n |-> x, s |-> R(b)]>>],
    [ref |-> Hash \o <<47>> \o Kw.properties \o <<47, 120>>], [oneOf |-> <<R(b), T("integer")>>, definitions |-> <<[n |-> c, s |-> T("string")]>>]>>
Names == <<a, b>>
Vals == <<S(a), F(1), Arr(<<>>), Arr(<<S(a)>>), Arr(<<F(1)>>), Obj(<<>>), Obj(<<P(x, S(a))>>), Obj(<<P(x, F(1))>>), Obj(<<P(x, Obj(<<>>))>>), Obj(<<P(x, Obj(<<P(x, S(a))>>))>>), Obj(<<P(a, S(a))>>)>>
VARIABLE h
Init == h = <<>>
Next == Len(h) < 1 + Len(Names) /\ \E i \in 1..Len(Bodies) : h' = Append(h, i)
Spec == Init /\ [][Next]_h
Full == Len(h) = 1 + Len(Names)
Doc == [definitions |-> [i \in 1..Len(Names) |-> [n |-> Names[i], s |-> Bodies[h[i + 1]]]]] @@ Bodies[h[1]]
\* ----------------------------------------------------------------- laws ---
U == Usable(Doc, Doc, 1)
\* in a usable schema everything that matters resolves, and both semantics
\* agree (and are defined at all)
Defined == Full /\ U => /\ \A r \in UsedClosure(Doc, Doc, 1) : RefOk(r, Doc)
                        /\ LET env == EnvOf(Doc, Doc, 1)
                           IN \A i \in 1..Len(Vals) : Eval(Compile(Doc, 1), Vals[i], env).ok = Sat(Doc, Vals[i], Doc, 1)
\* a reference is transparent: referring to what is at a pointer is the same as writing it there
Transparent == Full /\ U => \A r \in UsedClosure(Doc, Doc, 1) :
                 \A i \in 1..Len(Vals) : Sat([ref |-> r], Vals[i], Doc, 1) = Sat(Resolve(r, Doc).s, Vals[i], Doc, 1)
\* unused garbage is the only freedom
Freedom == Full => (AllSound(Doc, Doc, 1) => U)
Emit == Full => PrintT(<<"CASE", ToJson([doc |-> Doc, ev |-> <<[e |-> "build"]>> \o [i \in 1..Len(Vals) |-> [e |-> "val", v |-> Vals[i]]]])>>)
=============================================================================
