------------------------------- MODULE MCConc -------------------------------
(* Two threads, two operations each, every choice of operations from a small *)
(* alphabet and every interleaving of their calls, effects and returns.      *)
(* The laws speak about calls, returns and results only: what a caller can   *)
(* rely on without knowing at which instants the effects happened.           *)
EXTENDS Conc, Json
CONSTANT Family
X == <<120>>
P == <<112>>
Q == <<113>>
Str == [t |-> "str", s |-> <<97>>]
One == [t |-> "num", g |-> "int", q |-> 1]
Obj(p) == [t |-> "obj", g |-> "any", p |-> p]
Heap == <<[k |-> "string", calls |-> <<>>], [k |-> "bool", calls |-> <<>>],
          [k |-> "ref", calls |-> <<[m |-> "RefersTo", name |-> X]>>],
          [k |-> "object", calls |-> <<[m |-> "AdditionalProperties", c |-> [k |-> "empty", calls |-> <<>>]]>>]>>
Conf(call) == [f |-> "conf", o |-> 4, call |-> call]
Alphabet ==
  CASE Family = "refs" ->
         <<[f |-> "setref", n |-> X, c |-> 1], [f |-> "setref", n |-> X, c |-> 2], [f |-> "getref", n |-> X], [f |-> "len"],
           [f |-> "resolved", o |-> 3], [f |-> "vref", o |-> 3, v |-> Str]>>
    [] Family = "objs" ->
         <<Conf([m |-> "Required", ns |-> <<P>>]), Conf([m |-> "AddProp", n |-> P, c |-> [id |-> 1]]), Conf([m |-> "PropDependency", n |-> P, ns |-> <<Q>>]),
           [f |-> "isreq", o |-> 4, n |-> P], [f |-> "deps", o |-> 4, n |-> P],
           [f |-> "vobj", o |-> 4, v |-> Obj(<<>>)], [f |-> "vobj", o |-> 4, v |-> Obj(<<[n |-> P, v |-> One]>>)], [f |-> "vobj", o |-> 4, v |-> Obj(<<[n |-> P, v |-> Str]>>)]>>
NA == Len(Alphabet)
\* operation k of the history: thread 1 runs 1 and 2, thread 2 runs 3 and 4
Th(k) == IF k <= 2 THEN 1 ELSE 2
VARIABLES prog, st, hist, res, open, began
vars == <<prog, st, hist, res, open, began>>
Op(k) == Alphabet[prog[k]]
Init == /\ prog \in {p \in [1..4 -> 1..NA] : p[1] * NA + p[2] <= p[3] * NA + p[4]}
        /\ st = [refs |-> <<>>, stick |-> [i \in 1..4 |-> 0], heap |-> Heap]
        /\ hist = <<>> /\ res = <<>> /\ open = {} /\ began = <<>>
Saw(e, k) == \E i \in 1..Len(hist) : hist[i] = <<e, k>>
Call(k) == /\ ~Saw("c", k)
           /\ k \in {2, 4} => Saw("r", k - 1)
           /\ hist' = Append(hist, <<"c", k>>)
           /\ open' = open \cup {k}
           /\ began' = IF Instant(Op(k)) THEN began ELSE began @@ (k :> Len(st.heap[4].calls))
           /\ UNCHANGED <<prog, st, res>>
\* what the operation answers at this instant
Answer(op) ==
  CASE op.f = "getref" -> {[r |-> LookupId(st, op.n)]}
    [] op.f = "len" -> {[r |-> Len(st.refs)]}
    [] op.f = "resolved" -> {[r |-> Target(st, op.o)]}
    [] op.f = "vref" -> {[ok |-> Target(st, op.o) # 0 /\ Eval([id |-> Target(st, op.o)], op.v, EnvOfHeap(st.heap, 1)).ok]}
    [] op.f = "isreq" -> {[ok |-> op.n \in RequiredNames(st.heap[op.o])]}
    [] op.f = "deps" -> {[ns |-> SetToSeq(PropDeps(st.heap[op.o], op.n))]}
    [] OTHER -> {[none |-> TRUE]}
Act(k) == /\ Instant(Op(k))
          /\ \E a \in Answer(Op(k)) :
               /\ res' = res @@ (k :> a)
               /\ st' \in Effect(st, a @@ Op(k), 1)
          /\ open' = open \ {k}
          /\ UNCHANGED <<prog, hist, began>>
Ret(k) == /\ Saw("c", k) /\ ~Saw("r", k)
          /\ hist' = Append(hist, <<"r", k>>)
          /\ IF Instant(Op(k)) THEN k \notin open /\ UNCHANGED <<open, res>>
             ELSE /\ \E b \in Verdicts(st, 4, Op(k).v, began[k], 1) : res' = res @@ (k :> [ok |-> b])
                  /\ open' = open \ {k}
          /\ UNCHANGED <<prog, st, began>>
Next == \E k \in 1..4 : Call(k) \/ Ret(k) \/ (k \in open /\ Act(k))
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- the laws -
At(e, k) == CHOOSE i \in 1..Len(hist) : hist[i] = <<e, k>>
Done(k) == Saw("r", k)
Before(j, k) == Done(j) /\ Saw("c", k) /\ At("r", j) < At("c", k)          \* j returned before k was called
Is(k, f) == Op(k).f = f
Sets(m) == {k \in 1..4 : Is(k, "conf") /\ Op(k).call.m = m}
\* a lookup answers a registration that may have been the latest one
Regular == \A k \in 1..4 : Is(k, "getref") /\ Done(k) =>
             LET W == {j \in 1..4 : Is(j, "setref")}
             IN IF res[k].r = 0 THEN \A j \in W : ~Before(j, k)
                ELSE \E j \in W : /\ Op(j).c = res[k].r /\ Saw("c", j) /\ ~Before(k, j)
                                  /\ \A i \in W : ~(Before(j, i) /\ Before(i, k))
\* two successful resolutions of one reference agree; once it resolved it stays resolved
Agree == \A j, k \in 1..4 : Is(j, "resolved") /\ Is(k, "resolved") /\ Done(j) /\ Done(k) =>
             /\ (res[j].r # 0 /\ res[k].r # 0) => res[j].r = res[k].r
             /\ (res[j].r # 0 /\ Before(j, k)) => res[k].r # 0
\* what a validation through a reference says fits what a resolution finds
Fits == \A j, k \in 1..4 : Is(j, "resolved") /\ Is(k, "vref") /\ Done(j) /\ Done(k) /\ res[k].ok /\ res[j].r # 0 => res[j].r = 1
Counts == \A k \in 1..4 : Is(k, "len") /\ Done(k) =>
             /\ (\E j \in 1..4 : Is(j, "setref") /\ Before(j, k)) => res[k].r = 1
             /\ res[k].r = 1 => \E j \in 1..4 : Is(j, "setref") /\ Saw("c", j) /\ ~Before(k, j)
\* additions: what returned counts, what had not begun does not
Seen == \A k \in 1..4 : Is(k, "isreq") /\ Done(k) =>
             /\ (\E j \in Sets("Required") : Before(j, k)) => res[k].ok
             /\ res[k].ok => \E j \in Sets("Required") : Saw("c", j) /\ ~Before(k, j)
Judged == \A k \in 1..4 : Is(k, "vobj") /\ Done(k) =>
             LET Missing == Op(k).v.p = <<>>
                 Wrong == ~Missing /\ Op(k).v.p[1].v = One
                 Sure(m) == \E j \in Sets(m) : Before(j, k)
                 May(m) == \E j \in Sets(m) : Saw("c", j) /\ ~Before(k, j)
             IN /\ (Missing /\ Sure("Required")) \/ (Wrong /\ Sure("AddProp")) \/ (~Missing /\ Sure("PropDependency")) => ~res[k].ok
                /\ ~res[k].ok => (Missing /\ May("Required")) \/ (Wrong /\ May("AddProp")) \/ (~Missing /\ May("PropDependency"))
Emit == hist = <<>> /\ open = {} => PrintT(<<"CASE", ToJson([sh |-> 0, idiv |-> 1, refs |-> <<>>, heap |-> Heap, ops |-> [k \in 1..4 |-> [th |-> Th(k)] @@ Op(k)], threads |-> 2])>>)
=============================================================================
