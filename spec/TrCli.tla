-------------------------------- MODULE TrCli --------------------------------
(* Recorded runs of the command: requests on real documents.                 *)
EXTENDS Schema, Json, IOUtils
O == INSTANCE Cli
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos
vars == <<beh, pos>>
B == Trace[beh]
Ev == B.ev[pos]
Init == beh \in 1..Len(Trace) /\ pos = 1
\* how a part fares: the whole document if none is named
Part(at) == LET r == Resolve(at, B.doc)
            IN IF r.kind # "schema" THEN "bad"
               ELSE IF ~Usable(r.s, B.doc, B.idiv) THEN "bad"
               ELSE IF AllSound(r.s, B.doc, B.idiv) THEN "good" ELSE "either"
Parts == [i \in 1..Len(B.parts) |-> Part(B.parts[i])]
Req == [args |-> B.args, input |-> B.input, parts |-> IF B.input = "ok" THEN Parts ELSE <<>>, out |-> B.out, was |-> B.was, fault |-> B.fault]
NamesOk == \A i \in 1..Len(B.vnames) : B.vnames[i] = O!NameOf(B.prefix, i)
RunOk(x) == O!Outcome(Req, [ok |-> x.ok, dest |-> x.dest]) /\ NamesOk
Explains(x) == CASE x.e = "run" -> RunOk(x)
                 [] OTHER -> FALSE
Next == /\ pos <= Len(B.ev)
        /\ IF Explains(Ev) THEN TRUE ELSE PrintT(<<"REJECT", B.id, pos>>)
        /\ pos' = pos + 1
        /\ UNCHANGED beh
Spec == Init /\ [][Next]_vars
=============================================================================
