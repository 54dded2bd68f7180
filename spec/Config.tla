------------------------------- MODULE Config -------------------------------
(* What constraints, reference maps and validators say about themselves      *)
(* under a history of setter calls and questions.                            *)
(*   st   for every object a record                                          *)
(*        [k, map, req, deps, sdeps, kids, def, to, res, root, nm, own, refs]*)
(*   req  required names           deps   seq of [n, m]: n depends on m      *)
(*   sdeps seq of [n, o], later ones win     kids  children in order         *)
(*   def  [has, v]    to  name a reference refers to, res what it was        *)
(*   resolved to (0: not yet), map the object it asks                        *)
(*   root, nm  of a validator; own  the object whose map it uses             *)
(*   refs seq of [n, o], later ones win                                      *)
(* Facets (lengths, bounds, patterns ...) are no concern of any question.    *)
EXTENDS JVal
Obj(k, m) == [k |-> k, map |-> m, req |-> {}, deps |-> <<>>, sdeps |-> <<>>, kids |-> <<>>, def |-> [has |-> FALSE, v |-> [t |-> "nil"]],
              to |-> <<>>, res |-> 0, root |-> 0, nm |-> <<>>, own |-> 0, refs |-> <<>>]
Start(objs) == [i \in 1..Len(objs) |-> [Obj(objs[i].k, objs[i].map) EXCEPT !.own = i]]
\* the last entry for a name
Last_(s, n) == LET X == {i \in 1..Len(s) : s[i].n = n} IN IF X = {} THEN 0 ELSE s[CHOOSE i \in X : \A j \in X : j <= i].o
Names_(s) == {s[i].n : i \in 1..Len(s)}

\* ---------------------------------------------------------------- calls ---
Call(st, x) ==
  LET o == x.o IN
  CASE x.m = "Required" -> [st EXCEPT ![o].req = @ \cup Range(x.ns)]
    [] x.m = "PropDependency" -> [st EXCEPT ![o].deps = @ \o [i \in 1..Len(x.ns) |-> [n |-> x.n, m |-> x.ns[i]]]]
    [] x.m = "SchemaDependency" -> [st EXCEPT ![o].sdeps = Append(@, [n |-> x.n, o |-> x.c])]
    [] x.m = "Add" -> [st EXCEPT ![o].kids = Append(@, x.c)]
    [] x.m = "Default" -> [st EXCEPT ![o].def = [has |-> TRUE, v |-> x.v]]
    [] x.m = "RefersTo" -> [st EXCEPT ![o].to = x.n]
    [] x.m = "SetReference" -> [st EXCEPT ![st[o].own].refs = Append(@, [n |-> x.n, o |-> x.c])]
    [] x.m = "SetRoot" -> [st EXCEPT ![o].root = x.c]
    [] x.m = "SetName" -> [st EXCEPT ![o].nm = x.n]
    [] x.m = "SetConstraintMap" -> [st EXCEPT ![o].own = st[x.c].own]
    [] OTHER -> st                                    \* a facet

\* ------------------------------------------------------------ questions ---
Find(st, o, n) == Last_(st[st[o].own].refs, n)
Target(st, o) == IF st[o].res # 0 THEN st[o].res ELSE Find(st, st[o].map, st[o].to)
\* a question about a default, or for the target, settles what references stand for
RECURSIVE Settle(_, _, _)
Settle(st, o, all) ==
  IF o = 0 \/ st[o].k # "ref" THEN st
  ELSE LET t == Target(st, o) IN IF all THEN Settle([st EXCEPT ![o].res = t], t, TRUE) ELSE [st EXCEPT ![o].res = t]
RECURSIVE Def(_, _)
Def(st, o) == IF o = 0 THEN [has |-> FALSE, v |-> [t |-> "nil"]]
              ELSE IF st[o].k = "ref" THEN Def(st, Target(st, o))
              ELSE st[o].def
After(st, x) == CASE x.m = "Resolved" -> Settle(st, x.o, FALSE)
                  [] x.m \in {"HasDefault", "DefaultValue"} -> Settle(st, x.o, TRUE)
                  [] OTHER -> st
Combined == {"any", "all", "oneof"}
Says(st, x) ==
  LET o == st[x.o] IN
  CASE x.m = "IsPropRequired" -> x.r = (x.n \in o.req)
    [] x.m = "GetPropDependencies" -> Range(x.r) = {o.deps[i].m : i \in {j \in 1..Len(o.deps) : o.deps[j].n = x.n}}
    [] x.m = "GetSchemaDependency" -> x.r = Last_(o.sdeps, x.n)
    [] x.m = "Constraints" -> x.r = o.kids
    [] x.m = "Reduce" -> x.r = IF Len(o.kids) = 1 THEN o.kids[1] ELSE x.o
    [] x.m = "HasDefault" -> x.r = Def(st, x.o).has
    [] x.m = "DefaultValue" -> Same(x.r, Def(st, x.o).v)
    [] x.m = "Len" -> x.r = Cardinality(Names_(st[o.own].refs))
    [] x.m = "GetReference" -> x.r = Find(st, x.o, x.n)
    [] x.m = "Resolved" -> x.r = Target(st, x.o)
    [] x.m = "Root" -> x.r = o.root
    [] x.m = "Name" -> x.r = o.nm
    [] x.m = "Fails" -> IF o.root = 0 THEN ~x.r ELSE x.r \/ x.named
    [] x.m = "Validate" -> TRUE        \* what it finds is not the matter here: it changes nothing
    [] OTHER -> FALSE
\* names in order, code point by code point
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
             ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Leq(Tail(a), Tail(b))
Count_(s, e) == Cardinality({i \in 1..Len(s) : s[i] = e})
Sorted(st, x) == /\ Len(x.r) = Len(x.os)
                 /\ \A e \in Range(x.os) : Count_(x.os, e) = Count_(x.r, e)
                 /\ \A i \in 1..Len(x.r) - 1 : Leq(st[x.r[i]].nm, st[x.r[i + 1]].nm)
=============================================================================
