-------------------------------- MODULE Refs --------------------------------
(* Reference maps and reference constraints under a history of               *)
(* registrations and uses.                                                   *)
(*   maps  sequence of maps; a map is the sequence of its registrations      *)
(*         [n, o]: name n stands for heap object o                           *)
(*   st    for every heap object, the target it was resolved to (0: not yet; *)
(*         only reference constraints are ever resolved)                     *)
(* A reference keeps the target of its first successful use.  Whether a      *)
(* composite constraint uses a child whose verdict no longer matters is left *)
(* open: st after a step is one of several.                                  *)
EXTENDS Cons

\* ------------------------------------------------------------------ maps --
Lookup(m, n) == LET i == IndexOfName(m, n) IN IF i = 0 THEN 0 ELSE m[i].o
Register(maps, k, n, o) == [maps EXCEPT ![k] = Append(@, [n |-> n, o |-> o])]
Size(m) == Cardinality(NamesOf(m))

\* ------------------------------------------------------------ references --
IsRef(n) == n.k = "ref"
RefMap(n) == IF Has(n, "map") THEN n.map ELSE 1
RefName(n) == LastCall(n, "RefersTo").name
\* what heap object o resolves to if used now (0: an error)
Target(heap, maps, st, o) == IF st[o] # 0 THEN st[o] ELSE Lookup(maps[RefMap(heap[o])], RefName(heap[o]))

\* an environment for Cons in which every reference is a name of its own
Alias(o) == <<-o>>
Flat(heap, maps, st, idiv) ==
  LET R == SetToSeq({o \in 1..Len(heap) : IsRef(heap[o]) /\ Target(heap, maps, st, o) # 0})
  IN [heap |-> [o \in 1..Len(heap) |-> IF IsRef(heap[o])
                                       THEN [k |-> "ref", calls |-> <<[m |-> "RefersTo", name |-> Alias(o)]>>]
                                       ELSE heap[o]],
      refs |-> [i \in 1..Len(R) |-> [n |-> Alias(R[i]), c |-> [id |-> Target(heap, maps, st, R[i])]]],
      idiv |-> idiv]

\* the references a use of o certainly resolves: o and the chain behind it
RECURSIVE Chain(_, _, _, _)
Chain(heap, maps, st, o) ==
  IF ~IsRef(heap[o]) \/ Target(heap, maps, st, o) = 0 THEN {}
  ELSE {o} \cup Chain(heap, maps, st, Target(heap, maps, st, o))
\* those an accepting validation of v by o certainly resolves
RECURSIVE Must(_, _, _, _, _)
Must(heap, maps, st, o, v) ==
  LET n == heap[o]
      M(c, x) == IF Has(c, "id") /\ c.id # 0 THEN Must(heap, maps, st, c.id, x) ELSE {}
      d == Deref(v)
  IN CASE n.k = "ref" -> IF Target(heap, maps, st, o) = 0 THEN {} ELSE {o} \cup Must(heap, maps, st, Target(heap, maps, st, o), v)
       [] n.k = "all" -> UNION {M(n.calls[i].c, v) : i \in 1..Len(n.calls)}
       [] n.k = "array" /\ d.t = "arr" ->
            UNION {UNION {M(n.calls[i].c, d.e[j]) : j \in 1..Len(d.e)} : i \in {x \in 1..Len(n.calls) : n.calls[x].m = "Items"}}
       [] n.k = "object" /\ d.t = "obj" ->
            UNION {UNION {M(n.calls[i].c, d.p[j].v) : j \in {y \in 1..Len(d.p) : d.p[y].n = n.calls[i].n}} :
                     i \in {x \in 1..Len(n.calls) : n.calls[x].m = "AddProp"}}
       [] OTHER -> {}
\* the objects a validation by o can reach
Kids(heap, maps, st, o) ==
  LET n == heap[o]
      C == {i \in 1..Len(n.calls) : Has(n.calls[i], "c") /\ Has(n.calls[i].c, "id")}
  IN (IF IsRef(n) THEN {Target(heap, maps, st, o)}
      ELSE {n.calls[i].c.id : i \in C} \cup (IF Has(n, "c") /\ Has(n.c, "id") THEN {n.c.id} ELSE {})) \ {0}
RECURSIVE Reach(_, _, _, _)
Reach(heap, maps, st, O) ==
  LET P == O \cup UNION {Kids(heap, maps, st, o) : o \in O}
  IN IF P = O THEN O ELSE Reach(heap, maps, st, P)
May(heap, maps, st, o) == {x \in Reach(heap, maps, st, {o}) : IsRef(heap[x]) /\ st[x] = 0 /\ Target(heap, maps, st, x) # 0}

Resolve(heap, maps, st, R) == [o \in 1..Len(heap) |-> IF o \in R THEN Target(heap, maps, st, o) ELSE st[o]]
\* all states in which at least the references in must are resolved
After(heap, maps, st, must, may) == {Resolve(heap, maps, st, must \cup R) : R \in SUBSET (may \ must)}

\* ------------------------------------------------------------ operations --
\* Each gives the observation and the states possible afterwards.
DoVal(heap, maps, st, o, v, idiv) ==
  LET r == Eval([id |-> o], v, Flat(heap, maps, st, idiv))
      must == IF r.ok THEN Must(heap, maps, st, o, v) ELSE Chain(heap, maps, st, o)
  IN [ok |-> r.ok, v |-> r.v,
      next |-> After(heap, maps, st, must, IF IsRef(heap[o]) /\ Chain(heap, maps, st, o) = {} THEN {} ELSE May(heap, maps, st, o))]
DoDef(heap, maps, st, o, idiv) ==
  [d |-> DefaultOf([id |-> o], Flat(heap, maps, st, idiv)),
   next |-> {Resolve(heap, maps, st, Chain(heap, maps, st, o))}]
DoResolved(heap, maps, st, o) ==
  LET t == Target(heap, maps, st, o)
  IN [ok |-> t # 0, r |-> t, next |-> {IF t = 0 THEN st ELSE [st EXCEPT ![o] = t]}]
=============================================================================
