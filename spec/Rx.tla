--------------------------------- MODULE Rx ---------------------------------
(* Regular expressions, as far as the models use them: an optionally         *)
(* anchored alternation of sequences of repeated character classes.          *)
(*   rx   == [al, ar, alts]       ^ / $ anchors, alternatives                *)
(*   alt  == <<item, ...>>                                                   *)
(*   item == [lo, hi, neg, r]     class {lo,hi}; hi = -1 is unbounded;       *)
(*                                r is a sequence of <<from, to>> ranges     *)
(* Matching is unanchored unless anchored, as regexp.MatchString.            *)
EXTENDS Integers, Sequences

InClass(it, ch) ==
  LET in == \E k \in 1..Len(it.r) : it.r[k][1] <= ch /\ ch <= it.r[k][2]
  IN IF it.neg THEN ~in ELSE in

\* number of consecutive characters from pos, at most max, inside the class
Run(it, s, pos, max) ==
  LET last == IF max > Len(s) - pos + 1 THEN Len(s) ELSE pos + max - 1
  IN IF \A k \in pos..last : InClass(it, s[k]) THEN last - pos + 1
     ELSE (CHOOSE j \in pos..last : ~InClass(it, s[j]) /\ \A k \in pos..(j - 1) : InClass(it, s[k])) - pos

RECURSIVE MatchFrom(_, _, _, _, _)
MatchFrom(items, k, s, pos, ar) ==
  IF k > Len(items) THEN ~ar \/ pos = Len(s) + 1
  ELSE LET it == items[k]
           r  == Run(it, s, pos, IF it.hi = -1 THEN Len(s) ELSE it.hi)
       IN \E n \in it.lo..r : MatchFrom(items, k + 1, s, pos + n, ar)

RxMatch(rx, s) ==
  \E a \in 1..Len(rx.alts) :
    \E start \in (IF rx.al THEN {1} ELSE 1..(Len(s) + 1)) :
      MatchFrom(rx.alts[a], 1, s, start, rx.ar)
=============================================================================
