------------------------------- MODULE TrBig --------------------------------
(* Recorded histories of one number or integer constraint.                   *)
EXTENDS Big, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos, c
vars == <<beh, pos, c>>
B == Trace[beh]
Ev == B.ev[pos]
Init == /\ beh \in 1..Len(Trace) /\ pos = 1
        /\ c = Made(Trace[beh].k)
Explains(x) == CASE x.e = "call" -> TRUE
                 [] x.e = "val" -> x.ok = Accepts(c, x.v)
                 [] OTHER -> FALSE
Next == /\ pos <= Len(B.ev)
        /\ IF Explains(Ev) THEN TRUE ELSE PrintT(<<"REJECT", B.id, pos>>)
        /\ c' = IF Ev.e = "call" THEN Call(c, Ev) ELSE c
        /\ pos' = pos + 1
        /\ UNCHANGED beh
Spec == Init /\ [][Next]_vars
View == <<beh, pos>>
=============================================================================
