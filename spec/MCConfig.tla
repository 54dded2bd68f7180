------------------------------ MODULE MCConfig ------------------------------
(* Every history of N calls and questions on an object, a combination, two   *)
(* plain constraints, a reference, a map and two validators; after each one  *)
(* everything is asked.                                                      *)
EXTENDS Config, Json
CONSTANT N
Nil == [t |-> "nil"]
Str(s) == [t |-> "str", s |-> s]
X == <<120>>
Y == <<121>>
\* 1 object, 2 any, 3 string, 4 bool, 5 map, 6 and 7 validators, 8 reference by way of validator 6
Objs == <<[k |-> "object", map |-> 0, c |-> 0], [k |-> "any", map |-> 0, c |-> 0], [k |-> "string", map |-> 0, c |-> 0], [k |-> "bool", map |-> 0, c |-> 0],
          [k |-> "map", map |-> 0, c |-> 0], [k |-> "val", map |-> 0, c |-> 0], [k |-> "val", map |-> 0, c |-> 0], [k |-> "ref", map |-> 6, c |-> 0]>>
C(o, m, r) == [e |-> "call", o |-> o, m |-> m] @@ r
Q(o, m, r) == [e |-> "ask", o |-> o, m |-> m] @@ r
None == [zz |-> 0]
Ops == <<C(1, "Required", [ns |-> <<X>>]), C(1, "Required", [ns |-> <<X, Y>>]), C(1, "Required", [ns |-> <<>>]),
         C(1, "PropDependency", [n |-> X, ns |-> <<Y>>]), C(1, "PropDependency", [n |-> X, ns |-> <<X>>]), C(1, "PropDependency", [n |-> Y, ns |-> <<>>]),
         C(1, "SchemaDependency", [n |-> X, c |-> 3]), C(1, "SchemaDependency", [n |-> X, c |-> 1]), C(1, "AddProp", [n |-> Y, c |-> 4]), C(1, "MinProperties", [n |-> 1]),
         C(2, "Add", [c |-> 3]), C(2, "Add", [c |-> 4]),
         C(3, "Default", [v |-> Str(<<>>)]), C(3, "Default", [v |-> Nil]), C(3, "MinLength", [n |-> 3]), C(3, "Enum", [vs |-> <<Str(X)>>]), C(4, "Default", [v |-> [t |-> "bool", b |-> FALSE]]),
         C(5, "SetReference", [n |-> X, c |-> 3]), C(5, "SetReference", [n |-> X, c |-> 4]), C(6, "SetReference", [n |-> X, c |-> 4]), C(7, "SetReference", [n |-> Y, c |-> 3]),
         C(6, "SetConstraintMap", [c |-> 5]), C(7, "SetConstraintMap", [c |-> 6]), C(6, "SetRoot", [c |-> 3]), C(6, "SetName", [n |-> Y]), C(7, "SetName", [n |-> X]),
         C(8, "RefersTo", [n |-> X]), C(8, "RefersTo", [n |-> Y]), Q(8, "Resolved", None), Q(8, "HasDefault", None),
         Q(2, "Validate", [v |-> Str(X)]), Q(2, "Validate", [v |-> [t |-> "bool", b |-> TRUE]])>>
Asks == <<Q(1, "IsPropRequired", [n |-> X]), Q(1, "IsPropRequired", [n |-> Y]), Q(1, "GetPropDependencies", [n |-> X]), Q(1, "GetPropDependencies", [n |-> Y]),
          Q(1, "GetSchemaDependency", [n |-> X]), Q(1, "GetSchemaDependency", [n |-> Y]), Q(1, "HasDefault", None), Q(2, "Constraints", None), Q(2, "Reduce", None), Q(2, "HasDefault", None),
          Q(3, "HasDefault", None), Q(3, "DefaultValue", None), Q(4, "HasDefault", None), Q(4, "DefaultValue", None),
          Q(5, "Len", None), Q(5, "GetReference", [n |-> X]), Q(6, "Len", None), Q(6, "GetReference", [n |-> X]), Q(7, "Len", None), Q(7, "GetReference", [n |-> Y]),
          Q(6, "Root", None), Q(6, "Name", None), Q(7, "Root", None), [e |-> "sort", os |-> <<6, 7>>], Q(6, "Fails", [v |-> Str(X)]), Q(8, "Resolved", None), Q(8, "DefaultValue", None)>>
VARIABLES st, hist
vars == <<st, hist>>
Init == st = Start(Objs) /\ hist = <<>>
Do(s, x) == IF x.e = "call" THEN Call(s, x) ELSE After(s, x)
Next == Len(hist) < N /\ \E i \in 1..Len(Ops) : hist' = Append(hist, i) /\ st' = Do(st, Ops[i])
Spec == Init /\ [][Next]_vars
\* ----------------------------------------------------------------- laws ---
\* a call on one object shows in another only by way of a map or a reference
Frame == [][\A o \in 1..Len(Objs) : st'[o] # st[o] =>
              LET x == Ops[hist'[Len(hist')]] IN o = x.o \/ (x.m = "SetReference" /\ st[x.o].own = o)]_vars
\* nothing that was required or added is ever lost
Grows == [][/\ st[1].req \subseteq st'[1].req
            /\ Range(st[1].deps) \subseteq Range(st'[1].deps)
            /\ IsPrefix(st[2].kids, st'[2].kids)
            /\ st[3].def.has => st'[3].def.has
            /\ st[8].res # 0 => st'[8].res = st[8].res]_vars
\* names lead where they were last sent
Latest == LET S == {i \in 1..Len(hist) : Ops[hist[i]].m = "SetReference" /\ Ops[hist[i]].o = 5 /\ Ops[hist[i]].n = X}
              direct == \A i \in 1..Len(hist) : Ops[hist[i]].m # "SetConstraintMap"
          IN direct => Find(st, 5, X) = IF S = {} THEN 0 ELSE Ops[hist[CHOOSE i \in S : \A j \in S : j <= i]].c
\* a facet says nothing
Facets == [][LET x == Ops[hist'[Len(hist')]] IN x.m \in {"AddProp", "MinProperties", "MinLength", "Enum"} => st' = st]_vars
\* ---------------------------------------------------------------- cases ---
RECURSIVE Flat(_)
Flat(h) == IF h = <<>> THEN <<>> ELSE <<Ops[Head(h)]>> \o Flat(Tail(h))
\* questions about the reference settle it, so they come last and only once
Emit == Len(hist) = N => PrintT(<<"CASE", ToJson([sh |-> 0, objs |-> Objs, ev |-> Flat(hist) \o Asks])>>)
=============================================================================
