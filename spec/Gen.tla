-------------------------------- MODULE Gen ---------------------------------
(* Code generation.  The generated program makes each constraint by a        *)
(* constructor and one setter call for every facet that is in force, so the  *)
(* program for a constraint is again a constraint term: Program(c).  What    *)
(* must hold is that running it gives an equivalent constraint.  A whole     *)
(* generated file registers every reference first, then makes every          *)
(* validator; references are by name, shared children are written out again. *)
EXTENDS Cons

LOCAL Keep(n, ms) == FlattenSeq([i \in 1..Len(ms) |-> IF IsSet(n, ms[i]) THEN <<LastCall(n, ms[i])>> ELSE <<>>])
LOCAL On(n, m) == IF Flag(n, m) THEN <<[m |-> m, b |-> TRUE]>> ELSE <<>>
LOCAL Bound(n, m) == IF IsSet(n, m) /\ LastCall(n, m).n > -1 THEN <<LastCall(n, m)>> ELSE <<>>
RECURSIVE Program(_, _)
LOCAL PChild(x, env) == IF IsNil(x) THEN x ELSE Program(x, env)
Program(c, env) ==
  LET n == Node(c, env)
      kids == LET A == Calls(n, "Add") IN [i \in 1..Len(A) |-> [m |-> "Add", c |-> PChild(A[i].c, env)]]
      sub(m) == IF IsSet(n, m) THEN <<[m |-> m, c |-> PChild(LastCall(n, m).c, env)]>> ELSE <<>>
      mk(calls) == [k |-> n.k, calls |-> calls]
  IN CASE n.k = "string" -> mk(Bound(n, "MaxLength") \o Keep(n, <<"MinLength", "Format", "Regexp", "Enum", "Default">>))
       [] n.k \in {"number", "integer"} ->
            mk(Keep(n, <<"Minimum">>) \o On(n, "ExclusiveMinimum") \o Keep(n, <<"Maximum">>) \o On(n, "ExclusiveMaximum") \o Keep(n, <<"MultipleOf", "Enum", "Default">>))
       [] n.k = "bool" -> mk(Keep(n, <<"Enum", "Default">>))
       [] n.k \in {"null", "empty"} -> n
       [] n.k = "enum" -> mk(Keep(n, <<"Enum">>))
       [] n.k \in {"any", "all", "oneof"} -> mk(kids)
       [] n.k = "not" -> [k |-> "not", calls |-> <<>>, c |-> PChild(n.c, env)]
       [] n.k = "reduce" -> LET r == Node(n.c, env)
                                A == Calls(r, "Add")
                            IN IF Len(A) = 1 THEN Program(A[1].c, env) ELSE Program(n.c, env)
       [] n.k = "ref" -> mk(Keep(n, <<"RefersTo">>))
       [] n.k = "array" ->
            mk(sub("Items") \o sub("AdditionalItems")
               \o (IF IsSet(n, "PositionalItems") THEN LET cs == LastCall(n, "PositionalItems").cs
                                                       IN <<[m |-> "PositionalItems", cs |-> [i \in 1..Len(cs) |-> Program(cs[i], env)]]>> ELSE <<>>)
               \o Bound(n, "MinItems") \o Bound(n, "MaxItems") \o On(n, "UniqueItems"))
       [] n.k = "object" ->
            LET decl == SetToSeq(Declared(n))
                pats == Calls(n, "PatternProperties")
                deps == SetToSeq({n.calls[i].n : i \in {j \in 1..Len(n.calls) : n.calls[j].m = "PropDependency"}})
                sdeps == SetToSeq(SchemaDepNames(n))
            IN mk((IF RequiredNames(n) = {} THEN <<>> ELSE <<[m |-> "Required", ns |-> SetToSeq(RequiredNames(n))]>>)
                  \o Bound(n, "MinProperties") \o Bound(n, "MaxProperties") \o sub("AdditionalProperties")
                  \o [i \in 1..Len(decl) |-> [m |-> "AddProp", n |-> decl[i], c |-> Program(PropC(n, decl[i]), env)]]
                  \o [i \in 1..Len(pats) |-> [pats[i] EXCEPT !.c = Program(@, env)]]
                  \o FlattenSeq([i \in 1..Len(deps) |-> LET to == SetToSeq(PropDeps(n, deps[i]))
                                                        IN [j \in 1..Len(to) |-> [m |-> "PropDependency", n |-> deps[i], ns |-> <<to[j]>>]]])
                  \o [i \in 1..Len(sdeps) |-> [m |-> "SchemaDependency", n |-> sdeps[i], c |-> Program(SchemaDepC(n, sdeps[i]), env)]])
\* a generated file: the registrations and the validators, with nothing else in the world
File(heap, refs, env) ==
  [refs |-> [i \in 1..Len(refs) |-> [n |-> refs[i].n, c |-> Program(refs[i].c, env)]],
   vals |-> [i \in 1..Len(heap) |-> Program([id |-> i], env)]]
Rebuilt(f, idiv) == [heap |-> f.vals, refs |-> f.refs, idiv |-> idiv]
=============================================================================
