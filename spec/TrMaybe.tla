------------------------------ MODULE TrMaybe -------------------------------
(* Recorded histories of real Maybe values are histories of Maybe.           *)
EXTENDS Maybe, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos, st
vars == <<beh, pos, st>>
B == Trace[beh]
Init == beh \in 1..Len(Trace) /\ pos = 1 /\ st = Fresh
Ev == B.ev[pos]

Explains(x, s, r) ==
  /\ x.o \in {"set", "dec", "reset"}
  /\ x.err = r.err
  /\ x.valid = r.st.valid
  /\ r.st.valid =>
       /\ x.v = r.st.v
       /\ x.encok /\ TextOf(r.st.v, x.enc, x.encfl)
       /\ x.rtok /\ x.rtvalid /\ x.rtv = AfterRoundTrip(r.st.v)

Next == /\ pos <= Len(B.ev)
        /\ LET r == IF Ev.o \in {"set", "dec", "reset"} THEN Step(B.mk, st, Ev) ELSE [err |-> TRUE, st |-> st]
           IN /\ IF Ev.o \in {"set", "dec", "reset"} /\ Explains(Ev, st, r) THEN TRUE ELSE PrintT(<<"REJECT", B.id, pos>>)
              /\ st' = r.st
        /\ pos' = pos + 1
        /\ UNCHANGED beh
Spec == Init /\ [][Next]_vars
View == <<beh, pos>>
=============================================================================
