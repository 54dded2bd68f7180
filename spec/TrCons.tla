------------------------------- MODULE TrCons -------------------------------
(* Conformance of recorded validations: every line of the trace file is one  *)
(* behaviour of the real library (objects configured, calls made, results    *)
(* seen) and must be a behaviour of this state machine.                      *)
EXTENDS Cons, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES beh, pos, heap, refs, bad
vars == <<beh, pos, heap, refs, bad>>

B == Trace[beh]
Env == [heap |-> heap, refs |-> refs, idiv |-> B.idiv]

Init == /\ beh \in 1..Len(Trace)
        /\ pos = 1
        /\ heap = Trace[beh].heap
        /\ refs = Trace[beh].refs
        /\ bad = FALSE

Ev == B.ev[pos]
IsEvent(e) == pos <= Len(B.ev) /\ Ev.e = e /\ pos' = pos + 1 /\ UNCHANGED beh

\* validating a value: the verdict and the value afterwards are determined
ValOk(x) ==
  LET r == Eval(x.c, x.v, Env)
  IN /\ x.ok = r.ok
     /\ IF r.ok THEN Same(IF x.ch THEN x.after ELSE x.v, r.v)
        ELSE x.ch => Grew(x.v, x.after, AllDefaults(x.c, Env), B.idiv)

DefOk(x) ==
  LET d == DefaultOf(x.c, Env)
  IN x.has = d.has /\ (d.has => Same(x.v, d.v))

\* the registry of struct information, asked about the type of a struct
InfoOk(x) ==
  LET F == IF x.v.t = "ptr" THEN x.v.to.f ELSE x.v.f
      P == StructProps(F)
      A == Shown(F)
  IN /\ x.found
     /\ Len(x.has) = Len(P) /\ Range(x.has) = NamesOf(P)
     /\ \A i \in 1..Len(x.fields) :
          LET a == x.fields[i]
              k == IndexOfName(A, a.n)
          IN IF k = 0 THEN ~a.ok ELSE a.ok /\ a.go = A[k].fld.go

Explains(x) == CASE x.e = "val" -> ValOk(x)
                 [] x.e = "def" -> DefOk(x)
                 [] x.e = "info" -> InfoOk(x)
                 [] x.e = "call" -> TRUE
                 [] x.e = "setref" -> TRUE
                 [] OTHER -> FALSE            \* panic, hang, crash, ...

\* a configuration call on an object of the heap affects all later steps
Call == /\ IsEvent("call")
        /\ heap' = [heap EXCEPT ![Ev.o].calls = Append(@, Ev.call)]
        /\ UNCHANGED <<refs, bad>>
SetRef == /\ IsEvent("setref")
          /\ refs' = Append(refs, [n |-> Ev.n, c |-> Ev.c])
          /\ UNCHANGED <<heap, bad>>
Observe == /\ pos <= Len(B.ev)
           /\ Ev.e \notin {"call", "setref"}
           /\ IF Explains(Ev) THEN bad' = bad
              ELSE PrintT(<<"REJECT", B.id, pos>>) /\ bad' = TRUE
           /\ pos' = pos + 1
           /\ UNCHANGED <<beh, heap, refs>>
Next == Call \/ SetRef \/ Observe
Spec == Init /\ [][Next]_vars
View == <<beh, pos>>
=============================================================================
