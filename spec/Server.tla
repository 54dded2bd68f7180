------------------------------- MODULE Server -------------------------------
(* The playground server: what a request is answered with depends on that    *)
(* request alone.                                                            *)
(*   request  [path, body]; body.k "doc" (a JSON document that the server    *)
(*            can read as a schema; fate "good", "bad" or "either" says      *)
(*            whether a validator can be built) or "junk" (anything else)    *)
(*   answer   [status, kind, success, same, msg, code]: kind "html", "json" (one   *)
(*            JSON object) or "other"; same: the code is what the library    *)
(*            generates for the document; msg: there is a message; code:      *)
(*            there is code                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Root == <<47>>
Generate == <<47, 103, 101, 110, 101, 114, 97, 116, 101, 46, 106, 115, 111, 110>>
Page(q) == IF q.path = Root THEN "page" ELSE IF q.path = Generate THEN "generate" ELSE "none"
May(q) == q.body.k = "doc" /\ q.fate # "bad"
Must(q) == q.body.k = "doc" /\ q.fate = "good"
Answers(q, a) ==
  CASE Page(q) = "page" -> a.status = 200 /\ a.kind = "html"
    [] Page(q) = "none" -> a.status = 404
    [] OTHER -> /\ a.status = 200 /\ a.kind = "json"
                /\ a.success => May(q) /\ a.same /\ ~a.msg
                /\ ~a.success => ~Must(q) /\ a.msg /\ ~a.code
=============================================================================
