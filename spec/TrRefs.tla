------------------------------- MODULE TrRefs -------------------------------
(* Recorded histories of reference maps and references.                      *)
EXTENDS Refs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos, maps, S
vars == <<beh, pos, maps, S>>
B == Trace[beh]
H == B.heap
Ev == B.ev[pos]
Init == /\ beh \in 1..Len(Trace) /\ pos = 1
        /\ maps = [k \in 1..Trace[beh].nmap |-> <<>>]
        /\ S = {[o \in 1..Len(Trace[beh].heap) |-> 0]}

\* the states after observing x in st; none if st does not explain x
Succ(st, x) ==
  CASE x.e = "val" ->
         LET r == DoVal(H, maps, st, x.c.id, x.v, B.idiv)
         IN IF x.ok = r.ok /\ (r.ok => Same(IF x.ch THEN x.after ELSE x.v, r.v)) THEN r.next ELSE {}
    [] x.e = "def" ->
         LET r == DoDef(H, maps, st, x.c.id, B.idiv)
         IN IF x.has = r.d.has /\ (r.d.has => Same(x.v, r.d.v)) THEN r.next ELSE {}
    [] x.e = "resolved" ->
         LET r == DoResolved(H, maps, st, x.c.id) IN IF x.ok = r.ok /\ x.r = r.r THEN r.next ELSE {}
    [] x.e = "getref" ->
         LET o == Lookup(maps[x.map], x.n) IN IF x.ok = (o # 0) /\ x.r = o THEN {st} ELSE {}
    [] x.e = "len" -> IF x.r = Size(maps[x.map]) THEN {st} ELSE {}
    [] x.e = "setref" -> {st}
    [] OTHER -> {}

Next == /\ pos <= Len(B.ev)
        /\ LET T == TLCEval(UNION {Succ(st, Ev) : st \in S})
           IN IF T = {} THEN PrintT(<<"REJECT", B.id, pos>>) /\ S' = S ELSE S' = T
        /\ maps' = IF Ev.e = "setref" THEN Register(maps, Ev.map, Ev.n, Ev.c.id) ELSE maps
        /\ pos' = pos + 1
        /\ UNCHANGED beh
Spec == Init /\ [][Next]_vars
View == <<beh, pos>>
=============================================================================
