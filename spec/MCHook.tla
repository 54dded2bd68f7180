------------------------------ MODULE MCHook ------------------------------
(* Every struct whose type has some of the property methods, over a menu of  *)
(* field contents and of answers of the methods, offered by value and by     *)
(* pointer to a few constraints.                                             *)
EXTENDS Cons, Json
S(s) == [t |-> "str", s |-> s]
Num(g, q) == [t |-> "num", g |-> g, q |-> q]
LOCAL a == <<97>>
LOCAL b == <<98>>
LOCAL c == <<99>>
LOCAL d == <<100>>
LOCAL e == <<101>>
Base == [go |-> <<>>, tag |-> <<>>, exp |-> TRUE, emb |-> FALSE, maybe |-> FALSE, valid |-> FALSE, mk |-> "", ptr |-> FALSE, nilp |-> FALSE, any |-> FALSE, v |-> [t |-> "nil"]]
FA == {[Base EXCEPT !.go = <<65>>, !.tag = a, !.any = TRUE, !.v = v] : v \in {S(b), [t |-> "nil"]}}
MB == [Base EXCEPT !.go = <<66>>, !.tag = b, !.maybe = TRUE, !.mk = "String"]
FB == {MB, [MB EXCEPT !.valid = TRUE, !.v = S(a)]}
MC == [Base EXCEPT !.go = <<67>>, !.tag = c, !.maybe = TRUE, !.mk = "Int", !.ptr = TRUE]
FC == {[MC EXCEPT !.nilp = TRUE], MC, [MC EXCEPT !.valid = TRUE, !.v = Num("i64", 3)]}
G(v) == [Base EXCEPT !.go = <<88>>, !.v = v]
\* answers of GetPropValue
Menu == <<[n |-> a, f |-> G(S(<<113>>))], [n |-> b, f |-> G(Num("f64", 2))],
          [n |-> d, f |-> [G(Num("i64", 5)) EXCEPT !.maybe = TRUE, !.valid = TRUE, !.mk = "Int"]],
          [n |-> e, f |-> [Base EXCEPT !.go = <<88>>, !.maybe = TRUE, !.mk = "String"]]>>
Any_ == [m |-> "AdditionalProperties", c |-> EmptyC]
O(calls) == [k |-> "object", calls |-> calls]
Leaf(k) == [k |-> k, calls |-> <<>>]
Def(k, v) == [k |-> k, calls |-> <<[m |-> "Default", v |-> v]>>]
RxA == [al |-> TRUE, ar |-> FALSE, alts |-> <<<<[lo |-> 1, hi |-> 1, neg |-> FALSE, r |-> <<<<97, 97>>>>]>>>>]
Heap ==
  <<O(<<[m |-> "AddProp", n |-> a, c |-> Leaf("string")], [m |-> "Required", ns |-> <<b>>], Any_>>),
    O(<<[m |-> "AddProp", n |-> b, c |-> Leaf("string")], [m |-> "MinProperties", n |-> 2], [m |-> "MaxProperties", n |-> 3], Any_>>),
    O(<<[m |-> "PropDependency", n |-> a, ns |-> <<d>>], [m |-> "PropDependency", n |-> b, ns |-> <<c>>], Any_>>),
    O(<<[m |-> "PatternProperties", rx |-> RxA, src |-> "^a", c |-> Leaf("string")], [m |-> "AdditionalProperties", c |-> [k |-> "any", calls |-> <<[m |-> "Add", c |-> Leaf("integer")], [m |-> "Add", c |-> Leaf("null")]>>]]>>),
    O(<<[m |-> "AddProp", n |-> b, c |-> Def("string", S(<<120>>))], Any_>>),
    O(<<[m |-> "AddProp", n |-> c, c |-> Def("integer", Num("int", 7))], [m |-> "AddProp", n |-> e, c |-> Def("string", S(<<>>))], Any_>>),
    O(<<[m |-> "AddProp", n |-> b, c |-> Def("string", S(<<120>>))], Any_, [m |-> "SchemaDependency", n |-> a, c |-> O(<<[m |-> "MinProperties", n |-> 2], [m |-> "AddProp", n |-> d, c |-> Def("integer", Num("int", 1))], Any_>>)]>>)>>
Plain == 1..4
Env0 == [heap |-> Heap, refs |-> <<>>, idiv |-> 1]
VARIABLE h
Have(F) == {p.n : p \in Range(StructProps(F))}
Fit(x) == LET N == Have(x.f)
              names == x.hn /\ ~x.nerr
          IN \A i \in 1..Len(x.vals) :
               \/ names /\ (x.vals[i].f.maybe /\ ~x.vals[i].f.valid => x.hs)
               \/ x.vals[i].n \in N /\ (~x.vals[i].f.maybe \/ x.vals[i].f.valid)
Listed(x) == LET own == SelectSeq(x.vals, LAMBDA y : ~y.f.maybe \/ y.f.valid)
                 P == StructProps(x.f)
                 left == SelectSeq(P, LAMBDA y : IndexOfName(x.vals, y.n) = 0)
             IN [i \in 1..Len(own) |-> own[i].n] \o [i \in 1..Len(left) |-> left[i].n]
Pick(X) == LET RECURSIVE P(_)
               P(i) == IF i > Len(Menu) THEN <<>> ELSE IF i \in X THEN <<Menu[i]>> \o P(i + 1) ELSE P(i + 1)
           IN P(1)
Init == \E fa \in FA, fb \in FB, fc \in FC, hn \in BOOLEAN, hv \in BOOLEAN, hs \in BOOLEAN, nerr \in BOOLEAN, serr \in BOOLEAN, X \in SUBSET (1..Len(Menu)) :
          /\ nerr => hn
          /\ serr => hs
          /\ ~hv => X = {}
          /\ LET x == [t |-> "hook", f |-> <<fa, fb, fc>>, hn |-> hn, hv |-> hv, hs |-> hs, nerr |-> nerr, serr |-> serr, vals |-> Pick(X), pns |-> <<>>]
             IN Fit(x) /\ h = [x EXCEPT !.pns = Listed(x)]
Spec == Init /\ [][FALSE]_h
\* the last constraint looks again after defaults were stored
Of(x) == IF x.hs /\ x.hv /\ (~x.hn \/ x.nerr) THEN 1..(Len(Heap) - 1) ELSE 1..Len(Heap)
AsMap(x) == [t |-> "obj", g |-> "any", p |-> HookProps(x)]
\* ----------------------------------------------------------------- laws ---
SameAsMap == \A i \in Plain : Eval([id |-> i], h, Env0).ok = Eval([id |-> i], AsMap(h), Env0).ok
NamesOnce == IsInjective([i \in 1..Len(HookProps(h)) |-> HookProps(h)[i].n])
Untouched == \A i \in Plain : Same(Eval([id |-> i], h, Env0).v, h)
\* a method that cannot store makes every use of a default a failure; one that can takes any
Stored == LET r == Eval([id |-> 5], h, Env0)
          IN h.hs /\ IndexOfName(HookProps(h), b) = 0 => r.ok = ~h.serr /\ (r.ok => IndexOfName(r.v.vals, b) # 0)
\* what was stored is there the next time
Again == LET r == Eval([id |-> 5], h, Env0)
         IN r.ok /\ h.hn /\ ~h.nerr /\ h.hv => Same(Eval([id |-> 5], r.v, Env0).v, r.v)
\* ---------------------------------------------------------------- cases ---
Ev(i, v) == [e |-> "val", c |-> [id |-> i], v |-> v]
K(x) == SetToSeq(Of(x))
Emit == PrintT(<<"CASE", ToJson([sh |-> 0, idiv |-> 1, refs |-> <<>>, heap |-> Heap,
            ev |-> [i \in 1..Len(K(h)) |-> Ev(K(h)[i], h)] \o [i \in 1..Len(K(h)) |-> Ev(K(h)[i], [t |-> "ptr", to |-> h])]])>>)
=============================================================================
