------------------------------- MODULE TrEmit -------------------------------
(* Recorded generations.  dig is the identity of the complete text (0 if     *)
(* generation failed); text of a given request must not vary.                *)
EXTENDS Emit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos, texts, seen
vars == <<beh, pos, texts, seen>>
B == Trace[beh]
Ev == B.ev[pos]
Init == beh \in 1..Len(Trace) /\ pos = 1 /\ texts = {} /\ seen = {}
Bad == {B.bad[i] : i \in 1..Len(B.bad)}
K(x) == Key(x.order, B.names)
Fixed(k, d) == \A t \in texts : t[1] = k => t[2] = d
Known(k) == \E t \in texts : t[1] = k
GenOk(x) == /\ Fixed(K(x), x.dig)
            /\ (x.dig = 0) <=> \E i \in 1..Len(x.order) : x.order[i] \in Bad    \* only what cannot be generated fails
            /\ x.dig # 0 => LET V == Vars(x.order, B.names)
                            IN /\ V \subseteq {x.vars[i].n : i \in 1..Len(x.vars)}
                               /\ \A i \in 1..Len(x.vars) : x.vars[i].n \in V => x.vars[i].c = 1
                               /\ x.typed <= Len(x.order)
WriteOk(x) == ReturnOk(x.ok, x.failed, x.complete)
Explains(x) == CASE x.e = "gen" -> GenOk(x)
                 [] x.e = "write" -> WriteOk(x)
                 [] x.e = "val" -> <<x.o, x.i, ~x.ok>> \notin seen
                 [] x.e = "names" -> x.names = B.names
                 [] OTHER -> FALSE
Next == /\ pos <= Len(B.ev)
        /\ IF Explains(Ev) THEN TRUE ELSE PrintT(<<"REJECT", B.id, pos>>)
        /\ texts' = IF Ev.e = "gen" THEN texts \cup {<<K(Ev), Ev.dig>>} ELSE texts
        /\ seen' = IF Ev.e = "val" THEN seen \cup {<<Ev.o, Ev.i, Ev.ok>>} ELSE seen
        /\ pos' = pos + 1
        /\ UNCHANGED beh
Spec == Init /\ [][Next]_vars
View == <<beh, pos>>
=============================================================================
