--------------------------------- MODULE Cli ---------------------------------
(* One run of the command.  A request says what the input is, which parts of *)
(* the document are wanted, and where the code goes; the file system decides *)
(* whether the output can be opened and how much of it can be written.       *)
(*   input   "ok", or why it cannot be read as a JSON object                 *)
(*   parts   how each requested part fares: "good", "bad" (nothing there, or *)
(*           not a schema, or a reference that leads nowhere), "either"      *)
(*   out     "stdout" or "file"; was: "none" or "old" (the file exists)      *)
(*   fault   "none", "open" (cannot be opened), "write" (cannot be written   *)
(*           completely)                                                     *)
(* The outcome: exit status 0 or not, and what the destination holds:        *)
(* "none", "old", "full" (exactly the complete code) or "part" (anything     *)
(* else).                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fine(q) == q.args = "ok" /\ q.input = "ok"
May(q) == Fine(q) /\ q.fault = "none" /\ \A i \in 1..Len(q.parts) : q.parts[i] # "bad"
Must(q) == May(q) /\ \A i \in 1..Len(q.parts) : q.parts[i] = "good"
\* did it fail before it could have touched the output?
Early(q) == ~Fine(q) \/ \E i \in 1..Len(q.parts) : q.parts[i] = "bad"

Outcome(q, o) ==
  /\ o.ok => May(q) /\ o.dest = "full"
  /\ ~o.ok => ~Must(q)
  \* an existing file survives every failure but that of the write
  /\ (~o.ok /\ q.out = "file" /\ q.was = "old" /\ (q.fault # "write" \/ Early(q))) => o.dest = "old"

\* names of the validators: prefix and position; none without a prefix
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
NameOf(prefix, i) == IF prefix = <<>> THEN <<>> ELSE prefix \o Digits(i - 1)
=============================================================================
