------------------------------ MODULE TrConfig ------------------------------
(* Recorded histories of setter calls and questions.                         *)
EXTENDS Config, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos, st
vars == <<beh, pos, st>>
B == Trace[beh]
Ev == B.ev[pos]
Init == /\ beh \in 1..Len(Trace) /\ pos = 1
        /\ st = Start(Trace[beh].objs)
Explains(x) == CASE x.e = "call" -> x.self
                 [] x.e = "ask" -> Says(st, x)
                 [] x.e = "sort" -> Sorted(st, x)
                 [] OTHER -> FALSE
Next == /\ pos <= Len(B.ev)
        /\ IF Explains(Ev) THEN TRUE ELSE PrintT(<<"REJECT", B.id, pos>>)
        /\ st' = CASE Ev.e = "call" -> Call(st, Ev) [] Ev.e = "ask" -> After(st, Ev) [] OTHER -> st
        /\ pos' = pos + 1
        /\ UNCHANGED beh
Spec == Init /\ [][Next]_vars
View == <<beh, pos>>
=============================================================================
