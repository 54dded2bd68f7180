-------------------------------- MODULE Emit --------------------------------
(* One generation: the complete text is a function of which validators are   *)
(* asked for (their order matters only for those without a name); it is      *)
(* handed to a writer that may fail or fall short at any byte.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* names: sequence of names (<<>> if none); order: sequence of indices
Key(order, names) == IF \A i \in 1..Len(order) : names[order[i]] # <<>>
                     THEN <<"set", {order[i] : i \in 1..Len(order)}>>
                     ELSE <<"seq", order>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
VarName(order, names, i) == IF names[order[i]] # <<>> THEN names[order[i]] ELSE <<86>> \o Digits(i - 1)
Vars(order, names) == {VarName(order, names, i) : i \in 1..Len(order)}

\* The writer: a plan says after how many bytes (or at which call) it fails,
\* and how: "err" an error after taking what it could, "late" an error
\* although it took everything it was given, "short" fewer bytes and no error.
\* Whatever the sizes of the pieces that the generator hands out:
CONSTANT MaxPiece
Take(left, piece) == IF piece <= left THEN piece ELSE left
\* state of a write: [todo, done, left, failed]
Piece(s, plan, p) ==
  LET t == Take(s.left, p)
      hit == CASE plan = "none" -> FALSE
               [] plan = "late" -> s.left <= p
               [] OTHER -> t < p
  IN [todo |-> s.todo - p, done |-> s.done + (IF plan \in {"err", "short"} THEN t ELSE p), left |-> s.left - t, failed |-> hit]
\* what the caller may see at the end
ReturnOk(ok, failed, complete) == (ok => complete) /\ (failed => ~ok) /\ (~failed => ok)
=============================================================================
