------------------------------ MODULE TrBuilds ------------------------------
(* Recorded histories of builds.                                             *)
EXTENDS Builds, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos, vs, fate, seen
vars == <<beh, pos, vs, fate, seen>>
B == Trace[beh]
Ev == B.ev[pos]
Opaque(d) == ~Has(B.docs[d], "doc")
Init == /\ beh \in 1..Len(Trace) /\ pos = 1 /\ vs = <<>> /\ seen = {}
        /\ fate = [d \in 1..Len(Trace[beh].docs) |->
                     IF Has(Trace[beh].docs[d], "doc") THEN KnownFate(Trace[beh].docs[d].doc, Trace[beh].idiv) ELSE 0]
ValOk(x) ==
  LET d == vs[x.k]
  IN /\ fate[d] # 2                        \* there should be no such validator
     /\ VerdictOk(seen, d, x.i, x.ok)
     /\ ~Opaque(d) => LET s == B.docs[d].doc
                          r == TLCEval(Eval(Compile(s, B.idiv), x.v, EnvOf(s, s, B.idiv)))
                      IN /\ x.ok = r.ok
                         /\ r.ok => Same(IF x.ch THEN x.after ELSE x.v, r.v)
Explains(x) == CASE x.e = "build" -> FateOk(fate[x.d], x.ok)
                 [] x.e = "val" -> x.k <= Len(vs) /\ ValOk(x)
                 [] x.e = "intact" -> x.ok
                 [] x.e = "together" -> \A d \in 1..Len(fate) : FateOk(fate[d], x.oks[d])
                 [] OTHER -> FALSE
Next == /\ pos <= Len(B.ev)
        /\ IF Explains(Ev) THEN TRUE ELSE PrintT(<<"REJECT", B.id, pos>>)
        /\ vs' = IF Ev.e = "build" /\ Ev.ok THEN Append(vs, Ev.d) ELSE vs
        /\ fate' = CASE Ev.e = "build" -> [fate EXCEPT ![Ev.d] = Learn(@, Ev.ok)]
                     [] Ev.e = "together" -> [d \in 1..Len(fate) |-> Learn(fate[d], Ev.oks[d])]
                     [] OTHER -> fate
        /\ seen' = IF Ev.e = "val" /\ Ev.k <= Len(vs) THEN seen \cup {<<vs[Ev.k], Ev.i, Ev.ok>>} ELSE seen
        /\ pos' = pos + 1
        /\ UNCHANGED beh
Spec == Init /\ [][Next]_vars
View == <<beh, pos>>
=============================================================================
