------------------------------ MODULE MCStruct ------------------------------
(* Every struct with up to N fields from a menu (tags, Maybe fields, hidden   *)
(* fields, embedding), offered by value and by pointer to a few constraints. *)
EXTENDS Cons, Json
CONSTANT N
S(s) == [t |-> "str", s |-> s]
Num(g, q) == [t |-> "num", g |-> g, q |-> q]
LOCAL a == <<97>>
LOCAL b == <<98>>
LOCAL c == <<99>>
Om == <<44, 111, 109, 105, 116, 101, 109, 112, 116, 121>>     \* ,omitempty
Base == [go |-> <<>>, tag |-> <<>>, exp |-> TRUE, emb |-> FALSE, maybe |-> FALSE, valid |-> FALSE, mk |-> "", ptr |-> FALSE, nilp |-> FALSE, any |-> FALSE, v |-> [t |-> "nil"]]
Fld(go, tag, v) == [Base EXCEPT !.go = go, !.tag = tag, !.v = v]
May(go, tag, mk) == [Base EXCEPT !.go = go, !.tag = tag, !.maybe = TRUE, !.mk = mk]
Set(f, v) == [f EXCEPT !.valid = TRUE, !.v = v]
Emb(go, isptr, f) == [Base EXCEPT !.go = go, !.emb = TRUE, !.ptr = isptr, !.v = [t |-> "struct", f |-> f]]
Menu ==
  <<Fld(<<65>>, a, S(b)), Fld(<<65, 49>>, a \o Om, Num("int", 2)), [Fld(<<97, 50>>, a, S(a)) EXCEPT !.exp = FALSE], Fld(<<83>>, <<45>>, S(a)),
    Set(May(<<66>>, b, "Int"), Num("i64", 3)), May(<<66, 49>>, b, "Int"), May(<<66, 50>>, b \o Om, "Uint"), May(<<66, 51>>, b, "Float"),
    May(<<65, 52>>, a, "String"), [May(<<65, 53>>, a, "String") EXCEPT !.ptr = TRUE, !.nilp = TRUE], Set([May(<<65, 54>>, a, "String") EXCEPT !.ptr = TRUE], S(<<113>>)),
    Fld(<<67>>, <<>>, Num("f64", 1)), Fld(<<68>>, Om, S(a)), [Fld(<<67, 50>>, c, [t |-> "nil"]) EXCEPT !.any = TRUE],
    Emb(<<69>>, FALSE, <<Fld(<<65, 55>>, a, S(<<105>>)), May(<<66, 55>>, b, "Int")>>), Emb(<<71>>, TRUE, <<Fld(<<67, 55>>, c, S(c))>>),
    [Emb(<<72>>, TRUE, <<Fld(<<67, 56>>, c, S(c)), May(<<66, 56>>, b, "Int")>>) EXCEPT !.nilp = TRUE],
    [Emb(<<73>>, FALSE, <<Fld(<<65, 57>>, a, S(c)), Fld(<<67, 57>>, c, S(c))>>) EXCEPT !.tag = b \o Om],
    Emb(<<74>>, FALSE, <<Emb(<<75>>, FALSE, <<Fld(<<65, 65>>, a, Num("int", 9)), Fld(<<67, 65>>, c, S(a))>>), Fld(<<76>>, <<>>, S(b))>>),
    [Emb(<<77>>, FALSE, <<Fld(<<65, 66>>, a, S(c))>>) EXCEPT !.tag = <<45>>]>>
Any_ == [m |-> "AdditionalProperties", c |-> EmptyC]
O(calls) == [k |-> "object", calls |-> calls]
Leaf(k) == [k |-> k, calls |-> <<>>]
Def(k, v) == [k |-> k, calls |-> <<[m |-> "Default", v |-> v]>>]
RxA == [al |-> TRUE, ar |-> FALSE, alts |-> <<<<[lo |-> 1, hi |-> 1, neg |-> FALSE, r |-> <<<<97, 97>>>>]>>>>]
Heap ==
  <<O(<<[m |-> "AddProp", n |-> a, c |-> Def("string", S(<<120>>))], [m |-> "AddProp", n |-> b, c |-> Def("integer", Num("int", 7))], Any_>>),
    O(<<[m |-> "Required", ns |-> <<a>>], [m |-> "AddProp", n |-> a, c |-> Leaf("string")], [m |-> "AddProp", n |-> b, c |-> Leaf("integer")]>>),
    O(<<[m |-> "PropDependency", n |-> a, ns |-> <<b>>], [m |-> "MaxProperties", n |-> 2], Any_>>),
    O(<<[m |-> "PatternProperties", rx |-> RxA, src |-> "^a", c |-> Leaf("string")], [m |-> "AdditionalProperties", c |-> [k |-> "any", calls |-> <<[m |-> "Add", c |-> Leaf("integer")], [m |-> "Add", c |-> Leaf("null")]>>]]>>),
    O(<<[m |-> "MinProperties", n |-> 2], [m |-> "AddProp", n |-> c, c |-> Leaf("string")], Any_>>)>>
Plain == 2..5         \* those without defaults
Env0 == [heap |-> Heap, refs |-> <<>>, idiv |-> 1]
VARIABLE h
\* fields in the order of the menu, and no two of one JSON name that neither hides
Clear(F) == LET A == AllFields(F, <<>>, FALSE)
            IN \A i, k \in 1..Len(A) : (i # k /\ A[i].n = A[k].n) => Len(A[i].at) # Len(A[k].at)
Fields(x) == [i \in 1..Len(x) |-> Menu[x[i]]]
Init == h = <<>>
Next == /\ Len(h) < N
        /\ \E i \in 1..Len(Menu) : /\ \A k \in 1..Len(h) : h[k] < i
                                   /\ Clear(Fields(Append(h, i)))
                                   /\ h' = Append(h, i)
Spec == Init /\ [][Next]_h
Val(x) == [t |-> "struct", f |-> Fields(x)]
AsMap(v) == [t |-> "obj", g |-> "any", p |-> StructProps(v.f)]
\* ----------------------------------------------------------------- laws ---
SameAsMap == \A i \in Plain : Eval([id |-> i], Val(h), Env0).ok = Eval([id |-> i], AsMap(Val(h)), Env0).ok
OrderOfFields == \A i \in 1..5 : Eval([id |-> i], Val(h), Env0).ok = Eval([id |-> i], Val(Reverse(h)), Env0).ok
NamesOnce == IsInjective([i \in 1..Len(AsMap(Val(h)).p) |-> AsMap(Val(h)).p[i].n])
\* after filling in, the struct stands for the map after filling in
\* (where the map could take the default as it is)
Filled == LET p == [t |-> "ptr", to |-> Val(h)]
              r == Eval([id |-> 1], p, Env0)
          IN r.ok => LET q == StructProps(r.v.to.f)
                     IN \A n \in {a, b} : IndexOfName(q, n) # 0
\* ---------------------------------------------------------------- cases ---
Ev(i, v) == [e |-> "val", c |-> [id |-> i], v |-> v]
HasPtrEmb(x) == \E i \in 1..Len(x) : Menu[x[i]].emb /\ Menu[x[i]].ptr
Both(x) == (IF HasPtrEmb(x) THEN <<>> ELSE [i \in 1..5 |-> Ev(i, Val(x))]) \o [i \in 1..5 |-> Ev(i, [t |-> "ptr", to |-> Val(x)])]
Emit == PrintT(<<"CASE", ToJson([sh |-> 0, idiv |-> 1, refs |-> <<>>, heap |-> Heap, ev |-> Both(h) \o Both(Reverse(h))])>>)
=============================================================================
