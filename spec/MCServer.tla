------------------------------ MODULE MCServer ------------------------------
(* Up to N requests at a time on one server.  The only thing they share is   *)
(* the page template, made by whoever needs it first, under a lock.  Every   *)
(* other thing a request needs (body, builder, buffer) is its own.  Some     *)
(* clients go away before they are answered.                                 *)
EXTENDS Server, Json
CONSTANTS N, Shared      \* Shared: requests use one buffer (to see the law fail)
VARIABLES reqs, pc, tmpl, lock, buf, ans
vars == <<reqs, pc, tmpl, lock, buf, ans>>
Kinds == {"page", "other", "good1", "good2", "badref", "junk", "empty", "gone"}
Q(k) == [path |-> CASE k = "page" -> Root [] k = "other" -> <<47, 120>> [] OTHER -> Generate,
         body |-> [k |-> IF k \in {"good1", "good2", "badref", "gone"} THEN "doc" ELSE "junk"],
         fate |-> CASE k = "badref" -> "bad" [] OTHER -> "good"]
Init == /\ reqs \in [1..N -> Kinds]
        /\ pc = [i \in 1..N |-> "start"]
        /\ tmpl = 0 /\ lock = 0
        /\ buf = [i \in 1..N |-> "none"]
        /\ ans = [i \in 1..N |-> [status |-> 0, kind |-> "other", success |-> FALSE, same |-> FALSE, msg |-> FALSE, code |-> FALSE]]
To(i, l) == pc' = [pc EXCEPT ![i] = l]
B(i) == IF Shared THEN 1 ELSE i
Step(i) ==
  \/ /\ pc[i] = "start"
     /\ CASE Page(Q(reqs[i])) = "page" -> To(i, "wait") /\ UNCHANGED ans
          [] Page(Q(reqs[i])) = "none" -> To(i, "end") /\ ans' = [ans EXCEPT ![i].status = 404]
          [] OTHER -> To(i, "read") /\ UNCHANGED ans
     /\ UNCHANGED <<reqs, tmpl, lock, buf>>
  \/ pc[i] = "wait" /\ lock = 0 /\ lock' = i /\ To(i, "tmpl") /\ UNCHANGED <<reqs, tmpl, buf, ans>>
  \/ pc[i] = "tmpl" /\ tmpl' = tmpl + (IF tmpl = 0 THEN 1 ELSE 0) /\ lock' = 0 /\ To(i, "page") /\ UNCHANGED <<reqs, buf, ans>>
  \/ pc[i] = "page" /\ ans' = [ans EXCEPT ![i].status = 200, ![i].kind = IF tmpl = 1 THEN "html" ELSE "other"] /\ To(i, "end") /\ UNCHANGED <<reqs, tmpl, lock, buf>>
  \/ /\ pc[i] = "read"
     /\ \/ buf' = [buf EXCEPT ![B(i)] = reqs[i]] /\ To(i, "build") /\ UNCHANGED ans
        \/ reqs[i] = "gone" /\ To(i, "gone") /\ UNCHANGED <<buf, ans>>
     /\ UNCHANGED <<reqs, tmpl, lock>>
  \/ /\ pc[i] = "build"
     /\ LET k == buf[B(i)]
            good == k \in {"good1", "good2", "gone"}
        IN ans' = [ans EXCEPT ![i] = [status |-> 200, kind |-> "json", success |-> good, same |-> good /\ k = reqs[i], msg |-> ~good, code |-> good]]
     /\ To(i, "end") /\ UNCHANGED <<reqs, tmpl, lock, buf>>
Next == \E i \in 1..N : Step(i)
Spec == Init /\ [][Next]_vars /\ \A i \in 1..N : WF_vars(Step(i))
Independent == \A i \in 1..N : pc[i] = "end" => Answers(Q(reqs[i]), ans[i])
Once == tmpl <= 1
AllEnd == <>(\A i \in 1..N : pc[i] \in {"end", "gone"})
Emit == (\A i \in 1..N : pc[i] = "start") => PrintT(<<"CASE", ToJson([reqs |-> reqs])>>)
=============================================================================
