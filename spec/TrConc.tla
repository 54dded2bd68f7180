------------------------------- MODULE TrConc -------------------------------
(* Recorded concurrent histories: calls and returns in the order of a clock. *)
(* A history is one the specification allows if some choice of instants      *)
(* explains all results (<<"DONE", id>> is printed when its end is reached). *)
EXTENDS Conc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES beh, pos, st, open, began
vars == <<beh, pos, st, open, began>>
B == Trace[beh]
Ev == B.ev[pos]
Op(k) == B.ops[k]
Init == /\ beh \in 1..Len(Trace)
        /\ pos = 1
        /\ st = [refs |-> <<>>, stick |-> [i \in 1..Len(Trace[beh].heap) |-> 0], heap |-> Trace[beh].heap]
        /\ open = {}                              \* called, not yet in effect
        /\ began = <<>>                           \* validations under way: how much of the object counts
End == pos' = Len(B.ev) + 1 => PrintT(<<"DONE", B.id>>)
Call == /\ pos <= Len(B.ev) /\ Ev.e = "call"
        /\ open' = open \cup {Ev.k}
        /\ began' = IF Instant(Op(Ev.k)) THEN began ELSE began @@ (Ev.k :> Len(st.heap[Op(Ev.k).o].calls))
        /\ pos' = pos + 1 /\ End
        /\ UNCHANGED <<beh, st>>
\* an instant is only needed when somebody is about to return
Act(k) == /\ Instant(Op(k))
          /\ st' \in Effect(st, Op(k), B.idiv)
          /\ open' = open \ {k}
          /\ UNCHANGED <<beh, pos, began>>
Ret == /\ pos <= Len(B.ev) /\ Ev.e = "ret"
       /\ IF Instant(Op(Ev.k)) THEN Ev.k \notin open /\ UNCHANGED open
          ELSE /\ Op(Ev.k).ok \in Verdicts(st, Op(Ev.k).o, Op(Ev.k).v, began[Ev.k], B.idiv)
               /\ open' = open \ {Ev.k}
       /\ pos' = pos + 1 /\ End
       /\ UNCHANGED <<beh, st, began>>
Next == Call \/ Ret \/ (pos <= Len(B.ev) /\ Ev.e = "ret" /\ \E k \in open : Act(k))
Spec == Init /\ [][Next]_vars
=============================================================================
