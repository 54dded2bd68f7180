------------------------------ MODULE MCShare -------------------------------
(* A few constraints that share parts, configured by every history of up to  *)
(* N calls.  Laws: a call changes verdicts only of constraints that use what  *)
(* was configured (the frame), and calls on different objects commute.  Every *)
(* history is emitted, all probes being offered to all objects after each    *)
(* call, twice.                                                              *)
EXTENDS Cons, Json
T == INSTANCE Total
CONSTANT N
S(s) == [t |-> "str", s |-> s]
F(q) == [t |-> "num", g |-> "f64", q |-> q]
LOCAL a == <<97>>
LOCAL b == <<98>>
Obj(p) == [t |-> "obj", g |-> "any", p |-> p]
P(n, v) == [n |-> n, v |-> v]
Arr(e) == [t |-> "arr", e |-> e]
Ref(n) == [k |-> "ref", calls |-> <<[m |-> "RefersTo", name |-> n]>>]
\* 1: a string   2: an object using 1   3: an array of 1 or 2   4: a combination   5: through a reference
Heap0 ==
  <<[k |-> "string", calls |-> <<>>],
    [k |-> "object", calls |-> <<[m |-> "AddProp", n |-> a, c |-> [id |-> 1]], [m |-> "AdditionalProperties", c |-> EmptyC]>>],
    [k |-> "array", calls |-> <<[m |-> "Items", c |-> [k |-> "any", calls |-> <<[m |-> "Add", c |-> [id |-> 1]], [m |-> "Add", c |-> [id |-> 2]]>>]]>>],
    [k |-> "oneof", calls |-> <<[m |-> "Add", c |-> [id |-> 1]], [m |-> "Add", c |-> [k |-> "number", calls |-> <<>>]]>>],
    [k |-> "object", calls |-> <<[m |-> "AddProp", n |-> b, c |-> Ref(a)], [m |-> "AddProp", n |-> a, c |-> [k |-> "integer", calls |-> <<>>]]>>]>>
Refs0 == <<[n |-> a, c |-> [id |-> 2]]>>
Menu ==
  <<[o |-> 1, call |-> [m |-> "MaxLength", n |-> 1]], [o |-> 1, call |-> [m |-> "Enum", vs |-> <<S(a), S(<<97, 98>>)>>]],
    [o |-> 2, call |-> [m |-> "Required", ns |-> <<b>>]], [o |-> 2, call |-> [m |-> "AddProp", n |-> b, c |-> [id |-> 4]]],
    [o |-> 3, call |-> [m |-> "UniqueItems", b |-> TRUE]], [o |-> 3, call |-> [m |-> "MaxItems", n |-> 1]],
    [o |-> 4, call |-> [m |-> "Add", c |-> [id |-> 2]]],
    [o |-> 5, call |-> [m |-> "Required", ns |-> <<a>>]], [o |-> 5, call |-> [m |-> "AdditionalProperties", c |-> [id |-> 3]]]>>
Probes ==
  <<S(a), S(b), S(<<97, 98>>), F(1), Obj(<<>>), Obj(<<P(a, S(a))>>), Obj(<<P(a, S(<<97, 98>>)), P(b, S(a))>>), Obj(<<P(a, F(1)), P(b, Obj(<<P(a, S(a)), P(b, F(1))>>))>>),
    Obj(<<P(b, Obj(<<P(a, S(<<97, 98, 98>>))>>))>>), Obj(<<P(<<120>>, Arr(<<S(a), S(a)>>)), P(a, F(0))>>), Arr(<<S(a)>>), Arr(<<S(a), S(a)>>), Arr(<<Obj(<<P(b, S(b))>>), S(<<97, 98>>)>>), Arr(<<F(1)>>)>>
VARIABLE h
Init == h = <<>>
Next == Len(h) < N /\ \E i \in 1..Len(Menu) : (\A k \in 1..Len(h) : h[k] # i) /\ h' = Append(h, i)
Spec == Init /\ [][Next]_h
RECURSIVE Conf(_, _)
Conf(hp, x) == IF x = <<>> THEN hp ELSE Conf([hp EXCEPT ![Menu[Head(x)].o].calls = Append(@, Menu[Head(x)].call)], Tail(x))
E(hp) == [heap |-> hp, refs |-> Refs0, idiv |-> 1]
Ok(o, v, hp) == Eval([id |-> o], v, E(hp)).ok
\* ----------------------------------------------------------------- laws ---
Frame ==
  h = <<>> \/
  LET old == Conf(Heap0, Front(h))
      new == Conf(Heap0, h)
      o == Menu[Last(h)].o
  IN \A x \in 1..Len(Heap0) : o \notin T!Reach(x, new, Refs0) =>
       \A i \in 1..Len(Probes) : Ok(x, Probes[i], old) = Ok(x, Probes[i], new)
Swap == Len(h) < 2 \/
  LET n == Len(h)
      g == [h EXCEPT ![n] = h[n - 1], ![n - 1] = h[n]]
  IN Menu[h[n]].o = Menu[h[n - 1]].o \/
     \A x \in 1..Len(Heap0), i \in 1..Len(Probes) : Ok(x, Probes[i], Conf(Heap0, h)) = Ok(x, Probes[i], Conf(Heap0, g))
\* ---------------------------------------------------------------- cases ---
All == FlattenSeq([o \in 1..Len(Heap0) |-> [i \in 1..Len(Probes) |-> [e |-> "val", c |-> [id |-> o], v |-> Probes[i]]]])
Call(i) == [e |-> "call", o |-> Menu[i].o, call |-> Menu[i].call]
Emit == Len(h) < N \/
  PrintT(<<"CASE", ToJson([sh |-> 0, idiv |-> 1, refs |-> Refs0, heap |-> Heap0,
                           ev |-> All \o FlattenSeq([k \in 1..(N - 1) |-> <<Call(h[k])>>]) \o All \o <<Call(h[N])>> \o All \o Reverse(All)])>>)
=============================================================================
