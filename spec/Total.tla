------------------------------- MODULE Total --------------------------------
(* What holds for every Go value whatsoever: a validation returns a verdict, *)
(* the same one every time until a call configures something the constraint  *)
(* uses, and the input changes only if some constraint has a default.        *)
(*   heap   constraints (children may be other objects of the heap)          *)
(*   seen   verdicts given since the last relevant configuration call        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Has(r, f) == f \in DOMAIN r
\* objects of the heap that constraint c uses directly
RECURSIVE Uses(_)
Uses(c) ==
  IF Has(c, "id") THEN (IF c.id = 0 THEN {} ELSE {c.id})
  ELSE (IF Has(c, "c") THEN Uses(c.c) ELSE {})
       \cup UNION {LET x == c.calls[i]
                   IN (IF Has(x, "c") THEN Uses(x.c) ELSE {})
                      \cup (IF Has(x, "cs") THEN UNION {Uses(x.cs[j]) : j \in 1..Len(x.cs)} ELSE {}) : i \in 1..Len(c.calls)}
RECURSIVE HasRef(_)
HasRef(c) ==
  IF Has(c, "id") THEN FALSE
  ELSE \/ c.k = "ref"
       \/ (Has(c, "c") /\ HasRef(c.c))
       \/ \E i \in 1..Len(c.calls) : LET x == c.calls[i]
                                     IN \/ (Has(x, "c") /\ HasRef(x.c))
                                        \/ (Has(x, "cs") /\ \E j \in 1..Len(x.cs) : HasRef(x.cs[j]))
\* a reference may lead to anything that is registered
RegUses(refs) == UNION {Uses(refs[i].c) : i \in 1..Len(refs)}
RECURSIVE Close(_, _, _)
Close(S, heap, refs) ==
  LET T == S \cup UNION {Uses(heap[o]) \cup (IF HasRef(heap[o]) THEN RegUses(refs) ELSE {}) : o \in S}
  IN IF T = S THEN S ELSE Close(T, heap, refs)
Reach(o, heap, refs) == Close({o}, heap, refs)

RECURSIVE Defaulting(_)
Defaulting(c) ==
  IF Has(c, "id") THEN FALSE
  ELSE \/ (Has(c, "c") /\ Defaulting(c.c))
       \/ \E i \in 1..Len(c.calls) : LET x == c.calls[i]
                                     IN \/ x.m = "Default"
                                        \/ (Has(x, "c") /\ Defaulting(x.c))
                                        \/ (Has(x, "cs") /\ \E j \in 1..Len(x.cs) : Defaulting(x.cs[j]))
AnyDefault(heap, refs) == \/ \E o \in 1..Len(heap) : Defaulting(heap[o])
                          \/ \E i \in 1..Len(refs) : Defaulting(refs[i].c)

VerdictOk(seen, c, i, ok) == <<c, i, ~ok>> \notin seen
Forget(seen, o, heap, refs) == {x \in seen : o \notin Reach(x[1], heap, refs)}
=============================================================================
