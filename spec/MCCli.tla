-------------------------------- MODULE MCCli --------------------------------
(* The command as a sequence of steps, each of which may fail, for every     *)
(* request; the order in which it does them is what makes Outcome hold.      *)
EXTENDS Cli, Json
Kinds == {"good", "nowhere", "notobject", "malformed", "badref"}
PartSeqs == UNION {[1..n -> Kinds] : n \in 0..2}
Inputs == {"ok", "missing", "dir", "empty", "truncated", "array", "scalar", "notschema", "trailing"}
Outs == {<<"stdout", "none", "none">>, <<"stdout", "none", "write">>, <<"file", "none", "none">>, <<"file", "old", "none">>,
         <<"file", "none", "open">>, <<"file", "none", "write">>, <<"file", "old", "write">>, <<"file", "old", "open">>}
VARIABLES q, pc, i, dest, ok
vars == <<q, pc, i, dest, ok>>
Part(k) == IF k = "good" THEN "good" ELSE "bad"
Requests ==
  {[args |-> a, input |-> f, kinds |-> k, prefix |-> p, out |-> o[1], was |-> o[2], fault |-> o[3]] :
     a \in {"ok", "bad"}, f \in Inputs, k \in PartSeqs, p \in BOOLEAN, o \in Outs}
Sensible(r) == /\ r.args = "bad" => r.input = "ok" /\ r.kinds = <<>> /\ ~r.prefix
               /\ r.input # "ok" => Len(r.kinds) <= 1 /\ ~r.prefix
               /\ (r.input = "notschema" => r.kinds = <<>>)
Init == /\ q \in {r \in Requests : Sensible(r)}
        /\ pc = "args" /\ i = 1 /\ ok = FALSE
        /\ dest = IF q.out = "file" THEN q.was ELSE "none"
Stop == pc' = "end" /\ UNCHANGED <<q, i, dest, ok>>
Go(l) == pc' = l /\ UNCHANGED <<q, i, dest, ok>>
Args == pc = "args" /\ IF q.args = "ok" THEN Go("read") ELSE Stop
Read == pc = "read" /\ IF q.input = "ok" THEN Go("part") ELSE Stop
PartStep == /\ pc = "part"
            /\ IF i > Len(q.kinds) THEN Go("open")
               ELSE IF q.kinds[i] = "good" THEN i' = i + 1 /\ UNCHANGED <<q, pc, dest, ok>> ELSE Stop
Open == /\ pc = "open"
        /\ IF q.fault = "open" THEN Stop
           ELSE pc' = "write" /\ dest' = "part" /\ UNCHANGED <<q, i, ok>>
Write == /\ pc = "write"
         /\ IF q.fault = "write" THEN Stop
            ELSE pc' = "end" /\ dest' = "full" /\ ok' = TRUE /\ UNCHANGED <<q, i>>
Next == Args \/ Read \/ PartStep \/ Open \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Req == [args |-> q.args, input |-> q.input, parts |-> [j \in 1..Len(q.kinds) |-> Part(q.kinds[j])], out |-> q.out, was |-> q.was, fault |-> q.fault]
Allowed == pc = "end" => Outcome(Req, [ok |-> ok, dest |-> dest])
Ends == <>(pc = "end")
\* the outcome leaves no room: success and failure exclude each other
Decided == Must(Req) => ~Early(Req)
NamesDistinct == \A a, b \in 1..120 : a # b => NameOf(<<80>>, a) # NameOf(<<80>>, b)
Emit == pc = "args" => PrintT(<<"CASE", ToJson(q)>>)
=============================================================================
