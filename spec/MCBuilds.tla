------------------------------ MODULE MCBuilds ------------------------------
(* Every history of N builds with two builders of three documents that use   *)
(* the same names for different things (one of them cannot be built).        *)
EXTENDS Builds, Json
CONSTANT N
S(s) == [t |-> "str", s |-> s]
F(q) == [t |-> "num", g |-> "f64", q |-> q]
Obj(p) == [t |-> "obj", g |-> "any", p |-> p]
LOCAL a == <<97>>
DefA == <<35, 47>> \o Kw.definitions \o <<47>> \o a
T(t) == [type |-> <<t>>]
Docs == <<[ref |-> DefA, definitions |-> <<[n |-> a, s |-> T("string")]>>],
          [properties |-> <<[n |-> a, s |-> [ref |-> DefA]]>>, definitions |-> <<[n |-> a, s |-> T("integer")]>>],
          [properties |-> <<[n |-> a, s |-> [ref |-> DefA]]>>],
          [properties |-> <<[n |-> a, s |-> [ref |-> <<35>>]]>>]>>
Vals == <<S(a), F(1), Obj(<<>>), Obj(<<[n |-> a, v |-> S(a)]>>), Obj(<<[n |-> a, v |-> F(1)]>>), Obj(<<[n |-> a, v |-> Obj(<<>>)]>>)>>
VARIABLES hist, vs
Ok(d) == Usable(Docs[d], Docs[d], 1)
Init == hist = <<>> /\ vs = <<>>
Next == /\ Len(hist) < N
        /\ \E b \in 1..2, d \in 1..Len(Docs) :
             /\ hist' = Append(hist, [e |-> "build", b |-> b, d |-> d])
             /\ vs' = IF Ok(d) THEN Append(vs, d) ELSE vs
Spec == Init /\ [][Next]_<<hist, vs>>
\* a build never changes what earlier validators stand for, and builders do not matter
Stable == [][\A i \in 1..Len(vs) : vs'[i] = vs[i]]_<<hist, vs>>
BuilderFree == vs = LET G == SelectSeq(hist, LAMBDA x : Ok(x.d)) IN [i \in 1..Len(G) |-> G[i].d]
Probe(k) == [i \in 1..Len(Vals) |-> [e |-> "val", k |-> k, i |-> i, v |-> Vals[i]]]
Emit == Len(hist) = N =>
          PrintT(<<"CASE", ToJson([docs |-> [d \in 1..Len(Docs) |-> [doc |-> Docs[d]]],
                     ev |-> hist \o FlattenSeq([k \in 1..Len(vs) |-> Probe(k)]) \o <<[e |-> "together"], [e |-> "intact"], [e |-> "build", b |-> 1, d |-> 1]>>])>>)
=============================================================================
