------------------------------ MODULE TrServer ------------------------------
(* Recorded requests and answers, sequential and concurrent.                 *)
EXTENDS Schema, Json, IOUtils
S == INSTANCE Server
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos
vars == <<beh, pos>>
B == Trace[beh]
Ev == B.ev[pos]
Init == beh \in 1..Len(Trace) /\ pos = 1
Fate(q) == IF q.body.k # "doc" THEN "bad"
           ELSE LET d == B.docs[q.body.d].doc
                    idiv == B.docs[q.body.d].idiv
                IN IF ~Usable(d, d, idiv) THEN "bad" ELSE IF AllSound(d, d, idiv) THEN "good" ELSE "either"
AnswerOk(x) == S!Answers([path |-> x.q.path, body |-> x.q.body, fate |-> Fate(x.q)], x.a)
Explains(x) == CASE x.e = "answer" -> AnswerOk(x)
                 [] x.e = "alive" -> x.ok
                 [] OTHER -> FALSE
Next == /\ pos <= Len(B.ev)
        /\ IF Explains(Ev) THEN TRUE ELSE PrintT(<<"REJECT", B.id, pos>>)
        /\ pos' = pos + 1
        /\ UNCHANGED beh
Spec == Init /\ [][Next]_vars
=============================================================================
