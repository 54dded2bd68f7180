------------------------------ MODULE TrSchema ------------------------------
(* Recorded builds and validations of schemas.                               *)
EXTENDS Schema, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos, built
vars == <<beh, pos, built>>
B == Trace[beh]
Ev == B.ev[pos]
\* the schema that is built: the document or a part of it
Top(b) == LET r == Resolve(b.at, b.doc) IN r.s
Init == beh \in 1..Len(Trace) /\ pos = 1 /\ built = FALSE

BuildOk(x) == LET s == Top(B)
              IN IF Usable(s, B.doc, B.idiv) THEN (~x.ok => ~AllSound(s, B.doc, B.idiv))
                 ELSE ~x.ok
ValOk(x) ==
  LET s == Top(B)
      env == TLCEval(EnvOf(s, B.doc, B.idiv))
      r == TLCEval(Eval(Compile(s, B.idiv), x.v, env))
      sat == Sat(s, x.v, B.doc, B.idiv)
  IN /\ Assert(sat = r.ok, <<"Sat and Compile disagree", B.id, pos>>)
     /\ x.ok = sat
     /\ IF r.ok THEN Same(IF x.ch THEN x.after ELSE x.v, r.v)
        ELSE x.ch => Grew(x.v, x.after, AllDefaults(Compile(s, B.idiv), env), B.idiv)
Explains(x) == CASE x.e = "build" -> BuildOk(x)
                 [] x.e = "val" -> built /\ ValOk(x)
                 [] x.e = "intact" -> x.ok
                 [] x.e = "junk" -> ~x.ok            \* nothing that could be used was read
                 [] OTHER -> FALSE
Next == /\ pos <= Len(B.ev)
        /\ IF Explains(Ev) THEN TRUE ELSE PrintT(<<"REJECT", B.id, pos>>)
        /\ built' = IF Ev.e = "build" THEN Ev.ok /\ Usable(Top(B), B.doc, B.idiv) ELSE built
        /\ pos' = pos + 1
        /\ UNCHANGED beh
Spec == Init /\ [][Next]_vars
View == <<beh, pos>>
=============================================================================
