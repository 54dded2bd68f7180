------------------------------ MODULE TrTotal -------------------------------
(* Recorded validations of values of every kind.                             *)
EXTENDS Total, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos, heap, seen
vars == <<beh, pos, heap, seen>>
B == Trace[beh]
Ev == B.ev[pos]
Init == beh \in 1..Len(Trace) /\ pos = 1 /\ heap = Trace[beh].heap /\ seen = {}
Explains(x) == CASE x.e = "try" -> /\ VerdictOk(seen, x.c, x.i, x.ok)
                                   /\ x.ch => AnyDefault(heap, B.refs)
                 [] x.e \in {"call", "def"} -> TRUE
                 [] OTHER -> FALSE
Next == /\ pos <= Len(B.ev)
        /\ IF Explains(Ev) THEN TRUE ELSE PrintT(<<"REJECT", B.id, pos>>)
        /\ heap' = IF Ev.e = "call" THEN [heap EXCEPT ![Ev.o].calls = Append(@, B.calls[Ev.n])] ELSE heap
        /\ seen' = CASE Ev.e = "try" -> seen \cup {<<Ev.c, Ev.i, Ev.ok>>}
                     [] Ev.e = "call" -> Forget(seen, Ev.o, heap, B.refs)
                     [] OTHER -> seen
        /\ pos' = pos + 1
        /\ UNCHANGED beh
Spec == Init /\ [][Next]_vars
View == <<beh, pos>>
=============================================================================
