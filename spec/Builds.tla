------------------------------- MODULE Builds -------------------------------
(* Builders and the validators they make, under a history of builds and      *)
(* validations.  A builder has no state; a build depends on its document     *)
(* alone.  For a document without a model ("opaque") the outcome of a build  *)
(* and every verdict are unknown until first seen, and fixed from then on.   *)
(*   vs     the document each validator was built from                       *)
(*   fate   per document: 0 unknown, 1 builds, 2 does not                    *)
(*   seen   verdicts seen: set of <<document, value index, ok>>              *)
EXTENDS Schema

KnownFate(doc, idiv) == IF Usable(doc, doc, idiv) THEN (IF AllSound(doc, doc, idiv) THEN 1 ELSE 0) ELSE 2
FateOk(fate, ok) == fate = 0 \/ (fate = 1) = ok
Learn(fate, ok) == IF fate # 0 THEN fate ELSE IF ok THEN 1 ELSE 2
VerdictOk(seen, d, i, ok) == <<d, i, ~ok>> \notin seen
=============================================================================
