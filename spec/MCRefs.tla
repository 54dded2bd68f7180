------------------------------- MODULE MCRefs -------------------------------
(* Every history of up to N registrations and uses: two maps, two names, two *)
(* plain targets, three references (r3 reads the same name as r1 from the    *)
(* other map; y may be registered as a chain to r1).                         *)
EXTENDS Refs, Json
CONSTANT N
X == <<120>>
Y == <<121>>
Str(s) == [t |-> "str", s |-> s]
A == 1
Bo == 2
R1 == 3
R2 == 4
R3 == 5
Heap == <<[k |-> "string", calls |-> <<[m |-> "Default", v |-> Str(<<97>>)]>>],
          [k |-> "bool", calls |-> <<>>],
          [k |-> "ref", map |-> 1, calls |-> <<[m |-> "RefersTo", name |-> X]>>],
          [k |-> "ref", map |-> 1, calls |-> <<[m |-> "RefersTo", name |-> Y]>>],
          [k |-> "ref", map |-> 2, calls |-> <<[m |-> "RefersTo", name |-> X]>>]>>
Set(mp, n, o) == [e |-> "setref", map |-> mp, n |-> n, c |-> [id |-> o]]
Use(e, o) == [e |-> e, c |-> [id |-> o]]
Val(o, v) == [e |-> "val", c |-> [id |-> o], v |-> v]
Ops == <<Set(1, X, A), Set(1, X, Bo), Set(1, Y, A), Set(1, Y, R1), Set(2, X, Bo), Set(2, X, A),
         Use("resolved", R1), Use("def", R1), Val(R1, Str(<<98>>)),
         Use("resolved", R2), Use("def", R2), Val(R2, Str(<<98>>)), Use("resolved", R3)>>
VARIABLES maps, st, hist
vars == <<maps, st, hist>>
Init == maps = <<<<>>, <<>>>> /\ st = [o \in 1..5 |-> 0] /\ hist = <<>>
Do(x) == CASE x.e = "setref" -> {st}
           [] x.e = "resolved" -> DoResolved(Heap, maps, st, x.c.id).next
           [] x.e = "def" -> DoDef(Heap, maps, st, x.c.id, 1).next
           [] x.e = "val" -> {Resolve(Heap, maps, st, Chain(Heap, maps, st, x.c.id))}
Next == /\ Len(hist) < N
        /\ \E i \in 1..Len(Ops) :
             /\ hist' = Append(hist, i)
             /\ st' \in Do(Ops[i])
             /\ maps' = IF Ops[i].e = "setref" THEN Register(maps, Ops[i].map, Ops[i].n, Ops[i].c.id) ELSE maps
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- the laws -
\* most recent registration, straight from the history
Latest(k, n, upto) ==
  LET P == {i \in 1..upto : Ops[hist[i]].e = "setref" /\ Ops[hist[i]].map = k /\ Ops[hist[i]].n = n}
  IN IF P = {} THEN 0 ELSE Ops[hist[CHOOSE i \in P : \A j \in P : j <= i]].c.id
LookupIsLatest == \A k \in 1..2, n \in {X, Y} : Lookup(maps[k], n) = Latest(k, n, Len(hist))
\* a resolved reference points at what was registered at its first use that
\* could succeed
UsesOf(o) == {i \in 1..Len(hist) : Ops[hist[i]].e # "setref" /\
                (Ops[hist[i]].c.id = o \/ (o = R1 /\ Ops[hist[i]].c.id = R2 /\ Ops[hist[i]].e # "resolved"))}
FirstUse(o) == {i \in UsesOf(o) : Latest(RefMap(Heap[o]), RefName(Heap[o]), i) # 0}
DirectFirst(o) ==
  (\A i \in UsesOf(o) : Ops[hist[i]].c.id = o) =>
    LET F == FirstUse(o)
    IN st[o] = IF F = {} THEN 0 ELSE Latest(RefMap(Heap[o]), RefName(Heap[o]), CHOOSE i \in F : \A j \in F : i <= j)
FirstSuccessfulUse == DirectFirst(R2) /\ DirectFirst(R3) /\ DirectFirst(R1)
Sticky == [][\A o \in 1..5 : st[o] # 0 => st'[o] = st[o]]_vars
OnlyReferences == st[A] = 0 /\ st[Bo] = 0
Final == <<Use("resolved", R2), Use("resolved", R1), Use("def", R2), Use("def", R1), Val(R2, [t |-> "bool", b |-> TRUE]), Val(R1, Str(<<>>)), Val(R3, [t |-> "bool", b |-> FALSE]),
           [e |-> "getref", map |-> 1, n |-> X], [e |-> "getref", map |-> 1, n |-> Y], [e |-> "getref", map |-> 2, n |-> X], [e |-> "getref", map |-> 2, n |-> Y],
           [e |-> "len", map |-> 1], [e |-> "len", map |-> 2]>>
Emit == Len(hist) = N => PrintT(<<"CASE", ToJson([nmap |-> 2, sh |-> 0, idiv |-> 1, refs |-> <<>>, heap |-> Heap, ev |-> [i \in 1..N |-> Ops[hist[i]]] \o Final])>>)
=============================================================================
