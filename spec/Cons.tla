-------------------------------- MODULE Cons --------------------------------
(* Constraints and what they decide.                                         *)
(*                                                                           *)
(* A constraint is a mutable object: a record [k, calls] whose configuration *)
(* is the history of setter calls made on it.  Children are either written   *)
(* in place or refer to an object of the heap as [id |-> n]; [id |-> 0] is   *)
(* nil.  env == [heap, refs, idiv]: refs is a sequence of [n, c] (the        *)
(* reference map), idiv the number of units in 1.                            *)
(*                                                                           *)
(* Eval(c, v, env) is the outcome of validating v: [ok, v], where the second *)
(* component is the input afterwards, i.e. with defaults filled in.          *)
EXTENDS JVal, Rx, Fmt

Node(c, env) == IF Has(c, "id") THEN env.heap[c.id] ELSE c
IsNil(c) == Has(c, "id") /\ c.id = 0

\* ------------------------------------------------------- configuration ----
Calls(n, m) == SelectSeq(n.calls, LAMBDA x : x.m = m)
IsSet(n, m) == \E i \in 1..Len(n.calls) : n.calls[i].m = m
LastCall(n, m) == LET S == {i \in 1..Len(n.calls) : n.calls[i].m = m}
              IN n.calls[CHOOSE i \in S : \A j \in S : j <= i]
Flag(n, m) == IsSet(n, m) /\ LastCall(n, m).b
\* child set by the last call of m, or dflt
Child(n, m, dflt) == IF IsSet(n, m) THEN LastCall(n, m).c ELSE dflt
NilC == [id |-> 0]
EmptyC == [k |-> "empty", calls |-> <<>>]

InEnum(n, v) == IsSet(n, "Enum") =>
                  LET E == LastCall(n, "Enum").vs
                  IN \E i \in 1..Len(E) : JEq(E[i], v)

\* ------------------------------------------------------------- defaults ---
NoDefault == [has |-> FALSE]
RECURSIVE DefaultOf(_, _)
DefaultOf(c, env) ==
  LET n == Node(c, env)
  IN CASE n.k \in {"string", "number", "integer", "bool"} ->
            IF IsSet(n, "Default") THEN [has |-> TRUE, v |-> LastCall(n, "Default").v] ELSE NoDefault
       [] n.k = "ref" ->
            LET i == IndexOfName(env.refs, LastCall(n, "RefersTo").name)
            IN IF i = 0 THEN NoDefault ELSE DefaultOf(env.refs[i].c, env)
       [] n.k = "reduce" ->
            LET m == Node(n.c, env)
                A == Calls(m, "Add")
            IN IF Len(A) = 1 THEN DefaultOf(A[1].c, env) ELSE NoDefault
       [] OTHER -> NoDefault

\* ------------------------------------------------------------- scalars ----
StringOk(n, v0) ==
  LET v == Deref(v0)
  IN /\ v.t = "str"
     /\ (IsSet(n, "MaxLength") /\ LastCall(n, "MaxLength").n >= 0) => Len(v.s) <= LastCall(n, "MaxLength").n
     /\ IsSet(n, "MinLength") => Len(v.s) >= LastCall(n, "MinLength").n
     /\ IsSet(n, "Format") => FormatOk(LastCall(n, "Format").f, v.s)
     /\ IsSet(n, "Regexp") => RxMatch(LastCall(n, "Regexp").rx, v.s)
     /\ InEnum(n, v)

LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
InRange(n, q) ==
  /\ IsSet(n, "Minimum") => IF Flag(n, "ExclusiveMinimum") THEN q > LastCall(n, "Minimum").q ELSE q >= LastCall(n, "Minimum").q
  /\ IsSet(n, "Maximum") => IF Flag(n, "ExclusiveMaximum") THEN q < LastCall(n, "Maximum").q ELSE q <= LastCall(n, "Maximum").q
  /\ IsSet(n, "MultipleOf") => LET m == LastCall(n, "MultipleOf").q IN m # 0 => q % Abs(m) = 0

NumberOk(n, v0) ==
  LET v == Deref(v0)
  IN v.t = "num" /\ v.g \in FloatKinds /\ InRange(n, v.q) /\ InEnum(n, v)

IntegerOk(n, v0, idiv) ==
  LET v == Deref(v0)
  IN v.t = "num" /\ IsIntQ(v.q, idiv) /\ InRange(n, v.q) /\ InEnum(n, v)

NullOk(v) == v.t \in {"nil", "nilof"}

\* ------------------------------------------------------------- structs ----
\* f is a sequence of fields [go, tag, exp, emb, maybe, valid, mk, v]
JName(f) ==
  LET P == Split(f.tag, 44)
  IN IF Len(P[1]) > 0 THEN P[1] ELSE f.go
\* an embedded struct has a name only if its tag gives it one
Promoted(f) == f.emb /\ Len(Split(f.tag, 44)[1]) = 0
Visible(f) == ~Promoted(f) /\ f.exp /\ f.tag # <<45>>

(* Every visible field of F and of what it embeds, with its JSON name, the    *)
(* way to it, and whether a nil pointer is in the way.                       *)
RECURSIVE AllFields(_, _, _)
AllFields(F, at, gone) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(F) THEN <<>>
               ELSE (IF Promoted(F[i]) THEN AllFields(F[i].v.f, Append(at, i), gone \/ F[i].nilp)
                     ELSE IF Visible(F[i]) THEN <<[n |-> JName(F[i]), at |-> Append(at, i), gone |-> gone, fld |-> F[i]]>>
                     ELSE <<>>) \o Go(i + 1)
  IN Go(1)
\* the least deeply embedded one of each name; the others are hidden
Shown(F) == LET A == TLCEval(AllFields(F, <<>>, FALSE))
            IN SelectSeq(A, LAMBDA x : \A k \in 1..Len(A) : A[k].n = x.n => Len(A[k].at) >= Len(x.at))

\* the properties a struct has: [n, v] for every visible field that is present
StructProps(F) ==
  LET P == SelectSeq(Shown(F), LAMBDA x : ~x.gone /\ (x.fld.maybe => x.fld.valid))
  IN [i \in 1..Len(P) |-> [n |-> P[i].n, v |-> P[i].fld.v]]

\* the field called n (following embedding), or nil
FieldOf(F, n) ==
  LET P == SelectSeq(Shown(F), LAMBDA x : x.n = n /\ ~x.gone)
  IN IF P = <<>> THEN [found |-> FALSE] ELSE [found |-> TRUE, fld |-> P[1].fld, at |-> P[1].at]

\* replace the field called n by nf
RECURSIVE PutAt(_, _, _)
PutAt(F, at, nf) ==
  IF Len(at) = 1 THEN [F EXCEPT ![at[1]] = nf]
  ELSE [F EXCEPT ![at[1]].v.f = PutAt(F[at[1]].v.f, Tail(at), nf)]
WithField(F, n, nf) == PutAt(F, FieldOf(F, n).at, nf)

(* What a Maybe field of kind mk becomes when d is stored in it: numbers are  *)
(* converted to the numeric type of the field (truncating towards zero).     *)
Trunc(q, idiv) == IF idiv = 0 THEN 0 ELSE IF q >= 0 THEN q - (q % idiv) ELSE -((-q) - ((-q) % idiv))
MaybeStore(mk, d, idiv) ==
  LET N(g, q) == [ok |-> TRUE, v |-> [t |-> "num", g |-> g, q |-> q]]
      no == [ok |-> FALSE, v |-> d]
  IN CASE mk = "String" -> [ok |-> d.t = "str", v |-> d]
       [] mk = "Bool"   -> [ok |-> d.t = "bool", v |-> d]
       [] mk = "Int"    -> IF d.t = "num" THEN N("i64", Trunc(d.q, idiv)) ELSE no
       [] mk = "Uint"   -> IF d.t = "num" THEN N("u64", Trunc(d.q, idiv)) ELSE no
       [] mk = "Float"  -> IF d.t = "num" THEN N("f64", d.q) ELSE no
       [] mk = "Time"   -> IF d.t = "str" /\ DateTime(d.s) THEN [ok |-> TRUE, v |-> [t |-> "time", s |-> d.s]] ELSE no
       \* types of the user's: they take anything but booleans and nil
       [] mk \in {"Own", "Shared"} -> [ok |-> d.t \notin {"bool", "nil"}, v |-> d]
       [] OTHER         -> no
\* is there a Maybe to store into (Shared: a value that refers to it; ifc: declared as the interface)
Reachable(fld, viaPtr) == IF Has(fld, "ifc") THEN ~fld.nilp ELSE viaPtr \/ (fld.ptr /\ ~fld.nilp) \/ (fld.mk = "Shared" /\ ~fld.nilp)

\* can d be an element of a map of element type g
Storable(g, d) ==
  CASE g \in {"any", "named", "nkey"} -> TRUE
    [] g = "str" -> d.t = "str"
    [] g = "int" -> d.t = "num" /\ d.g = "int"
    [] g = "f64" -> d.t = "num" /\ d.g = "f64"
    [] OTHER -> FALSE

(* A struct whose type has methods of its own to get at its properties:      *)
(*   [f, hn, hv, hs, pns, nerr, vals, serr]                                *)
(* GetPropNames (hn) returns pns, or fails (nerr); GetPropValue (hv)       *)
(* answers for the names in vals ([n, f], f like a field) and fails for all  *)
(* others; SetPropValue (hs) stores among vals, or fails (serr).  Whatever a *)
(* method fails to answer is taken from the fields f.                        *)
HookIndex(v, nm) == IF v.hv THEN IndexOfName(v.vals, nm) ELSE 0
HookProps(v) ==
  LET P == StructProps(v.f)
      N == IF v.hn /\ ~v.nerr THEN v.pns ELSE [i \in 1..Len(P) |-> P[i].n]
  IN [i \in 1..Len(N) |-> [n |-> N[i], v |-> IF HookIndex(v, N[i]) # 0 THEN v.vals[HookIndex(v, N[i])].f.v
                                             ELSE P[IndexOfName(P, N[i])].v]]

\* ------------------------------------------------------------- objects ----
\* (a time.Time is a struct without exported fields)
IsMapLike(v) == \/ v.t \in {"obj", "struct", "time", "hook"}
                \/ v.t = "nilof" /\ v.g = "map"
PropsOf(v) == CASE v.t = "obj" -> v.p
                [] v.t = "struct" -> StructProps(v.f)
                [] v.t = "hook" -> HookProps(v)
                [] OTHER -> <<>>

\* present properties replaced and defaults added, where they are kept in fields
StoreFields(v, viaPtr, P, A, idiv) ==
  LET RECURSIVE Upd(_, _)
      Upd(F, i) == IF i > Len(P) THEN F
                   ELSE Upd(WithField(F, P[i].n, [FieldOf(F, P[i].n).fld EXCEPT !.v = P[i].v]), i + 1)
      RECURSIVE Add(_, _)
      Add(F, i) == IF i > Len(A) THEN F
                   ELSE LET fo == FieldOf(F, A[i].n)
                        IN Add(WithField(F, A[i].n,
                               [fo.fld EXCEPT !.valid = TRUE, !.v = MaybeStore(fo.fld.mk, A[i].v, idiv).v]), i + 1)
      can == \A i \in 1..Len(A) :
               LET fo == FieldOf(v.f, A[i].n)
               IN fo.found /\ Reachable(fo.fld, viaPtr) /\ fo.fld.maybe /\ MaybeStore(fo.fld.mk, A[i].v, idiv).ok
  IN [ok |-> can,
      v  |-> IF can THEN [v EXCEPT !.f = Add(Upd(v.f, 1), 1)] ELSE v]

(* v (below a pointer if viaPtr) with its present properties replaced by     *)
(* those of P (same names) and the defaults A (a sequence of [n, v]) added.  *)
StoreAll(v, viaPtr, P, A, idiv) ==
  CASE v.t = "obj" ->
         [ok |-> \A i \in 1..Len(A) : Storable(v.g, A[i].v),
          v  |-> [v EXCEPT !.p = P \o A]]
    [] v.t = "struct" -> StoreFields(v, viaPtr, P, A, idiv)
    [] v.t = "hook" ->
         LET mine == SelectSeq(P, LAMBDA x : HookIndex(v, x.n) # 0)
             rest == SelectSeq(P, LAMBDA x : HookIndex(v, x.n) = 0)
             vals == [i \in 1..Len(v.vals) |->
                        IF IndexOfName(mine, v.vals[i].n) # 0 THEN [v.vals[i] EXCEPT !.f.v = mine[IndexOfName(mine, v.vals[i].n)].v] ELSE v.vals[i]]
             st == StoreFields(v, viaPtr, rest, IF v.hs THEN <<>> ELSE A, idiv)
             old == SelectSeq(vals, LAMBDA x : IndexOfName(A, x.n) = 0)
             more == SelectSeq(A, LAMBDA x : v.hn /\ v.hv /\ x.n \notin Range(v.pns))
         IN IF v.hs THEN [ok |-> A = <<>> \/ ~v.serr,
                          v |-> [st.v EXCEPT !.pns = v.pns \o [i \in 1..Len(more) |-> more[i].n],
                                             !.vals = old \o [i \in 1..Len(A) |-> [n |-> A[i].n, f |-> [maybe |-> FALSE, valid |-> FALSE, v |-> A[i].v]]]]]
            ELSE [ok |-> st.ok, v |-> [st.v EXCEPT !.vals = vals]]
    [] OTHER -> [ok |-> A = <<>>, v |-> v]

\* the last AddProp call for name nm, as a constraint
PropC(n, nm) ==
  LET S == {i \in 1..Len(n.calls) : n.calls[i].m = "AddProp" /\ n.calls[i].n = nm}
  IN n.calls[CHOOSE i \in S : \A j \in S : j <= i].c
Declared(n) == {n.calls[i].n : i \in {j \in 1..Len(n.calls) : n.calls[j].m = "AddProp"}}
RequiredNames(n) ==
  UNION {{n.calls[i].ns[j] : j \in 1..Len(n.calls[i].ns)} : i \in {x \in 1..Len(n.calls) : n.calls[x].m = "Required"}}
PropDeps(n, nm) ==
  UNION {{n.calls[i].ns[j] : j \in 1..Len(n.calls[i].ns)} :
            i \in {x \in 1..Len(n.calls) : n.calls[x].m = "PropDependency" /\ n.calls[x].n = nm}}
SchemaDepNames(n) == {n.calls[i].n : i \in {j \in 1..Len(n.calls) : n.calls[j].m = "SchemaDependency"}}
SchemaDepC(n, nm) ==
  LET S == {i \in 1..Len(n.calls) : n.calls[i].m = "SchemaDependency" /\ n.calls[i].n = nm}
  IN n.calls[CHOOSE i \in S : \A j \in S : j <= i].c

Fail(v) == [ok |-> FALSE, v |-> v]

RECURSIVE Eval(_, _, _)

\* thread v through the constraints cs (a sequence): all must accept
RECURSIVE EvalSeq(_, _, _, _)
EvalSeq(cs, i, v, env) ==
  IF i > Len(cs) THEN [ok |-> TRUE, v |-> v]
  ELSE LET r == Eval(cs[i], v, env)
       IN IF r.ok THEN EvalSeq(cs, i + 1, r.v, env) ELSE r

EvalArray(n, v, env) ==
  LET E == IF v.t = "arr" THEN v.e ELSE <<>>
      l == Len(E)
      items == Child(n, "Items", NilC)
      pos == IF IsSet(n, "PositionalItems") THEN LastCall(n, "PositionalItems").cs ELSE <<>>
      addl == Child(n, "AdditionalItems", EmptyC)
      rule(i) == IF ~IsNil(items) THEN items
                 ELSE IF i <= Len(pos) THEN pos[i]
                 ELSE IF Len(pos) > 0 THEN addl
                 ELSE EmptyC
  IN IF ~(v.t = "arr" \/ (v.t = "nilof" /\ v.g = "slice")) THEN Fail(v)
     ELSE IF IsSet(n, "MinItems") /\ LastCall(n, "MinItems").n >= 0 /\ l < LastCall(n, "MinItems").n THEN Fail(v)
     ELSE IF IsSet(n, "MaxItems") /\ LastCall(n, "MaxItems").n >= 0 /\ l > LastCall(n, "MaxItems").n THEN Fail(v)
     ELSE IF Flag(n, "UniqueItems") /\ (\E i, j \in 1..l : i < j /\ JEq(E[i], E[j])) THEN Fail(v)
     ELSE IF \E i \in 1..l : IsNil(rule(i)) THEN Fail(v)
     ELSE LET R == TLCEval([i \in 1..l |-> Eval(rule(i), E[i], env)])
          IN IF \E i \in 1..l : ~R[i].ok THEN Fail(v)
             ELSE IF v.t = "arr" THEN [ok |-> TRUE, v |-> [v EXCEPT !.e = [i \in 1..l |-> R[i].v]]]
             ELSE [ok |-> TRUE, v |-> v]

EvalObject(n, v0, env) ==
  LET v == Deref(v0)
      P == PropsOf(v)
      names == NamesOf(P)
      decl == Declared(n)
      req == RequiredNames(n)
      pats == Calls(n, "PatternProperties")
      addl == Child(n, "AdditionalProperties", NilC)
      Rules(nm) == IF nm \in decl THEN <<PropC(n, nm)>>
                   ELSE LET M == SelectSeq(pats, LAMBDA x : RxMatch(x.rx, nm))
                        IN IF Len(M) > 0 THEN [i \in 1..Len(M) |-> M[i].c]
                           ELSE <<addl>>
      absent == SelectSeq(SetToSeq(decl \ (names \cup req)), LAMBDA x : DefaultOf(PropC(n, x), env).has)
      A == [i \in 1..Len(absent) |-> [n |-> absent[i], v |-> DefaultOf(PropC(n, absent[i]), env).v]]
  IN IF ~IsMapLike(v) THEN Fail(v0)
     ELSE IF IsSet(n, "MinProperties") /\ LastCall(n, "MinProperties").n >= 0 /\ Len(P) < LastCall(n, "MinProperties").n THEN Fail(v0)
     ELSE IF IsSet(n, "MaxProperties") /\ LastCall(n, "MaxProperties").n >= 0 /\ Len(P) > LastCall(n, "MaxProperties").n THEN Fail(v0)
     ELSE IF ~(req \subseteq names) THEN Fail(v0)
     ELSE IF \E i \in 1..Len(P) : \E j \in 1..Len(Rules(P[i].n)) : IsNil(Rules(P[i].n)[j]) THEN Fail(v0)
     ELSE LET R == TLCEval([i \in 1..Len(P) |-> EvalSeq(Rules(P[i].n), 1, P[i].v, env)])
          IN IF \E i \in 1..Len(P) : ~R[i].ok THEN Fail(v0)
             ELSE LET st == StoreAll(v, v0.t = "ptr", [i \in 1..Len(P) |-> [n |-> P[i].n, v |-> R[i].v]], A, env.idiv)
                      v1 == IF v0.t = "ptr" THEN [v0 EXCEPT !.to = st.v] ELSE st.v
                      trig == SelectSeq(SetToSeq(SchemaDepNames(n)), LAMBDA x : x \in names /\ PropDeps(n, x) = {})
                  IN IF ~st.ok THEN Fail(v0)
                     ELSE IF \E nm \in names : ~(PropDeps(n, nm) \subseteq names) THEN Fail(v0)
                     ELSE EvalSeq([i \in 1..Len(trig) |-> SchemaDepC(n, trig[i])], 1, v1, env)

Eval(c, v, env) ==
  LET n == Node(c, env)
      kids == LET A == Calls(n, "Add") IN [i \in 1..Len(A) |-> A[i].c]
  IN CASE n.k = "empty"   -> [ok |-> TRUE, v |-> v]
       [] n.k = "null"    -> [ok |-> NullOk(v), v |-> v]
       [] n.k = "bool"    -> [ok |-> v.t = "bool" /\ InEnum(n, v), v |-> v]
       [] n.k = "string"  -> [ok |-> StringOk(n, v), v |-> v]
       [] n.k = "number"  -> [ok |-> NumberOk(n, v), v |-> v]
       [] n.k = "integer" -> [ok |-> IntegerOk(n, v, env.idiv), v |-> v]
       [] n.k = "enum"    -> [ok |-> IsSet(n, "Enum") /\ InEnum(n, v), v |-> v]
       [] n.k = "not"     -> [ok |-> ~IsNil(n.c) /\ ~Eval(n.c, v, env).ok, v |-> v]
       [] n.k = "reduce"  -> Eval(n.c, v, env)
       [] n.k = "all"     -> EvalSeq(kids, 1, v, env)
       [] n.k = "any"     -> LET R == TLCEval([i \in 1..Len(kids) |-> Eval(kids[i], v, env)])
                                 S == {i \in 1..Len(kids) : R[i].ok}
                             IN IF S = {} THEN Fail(v) ELSE R[CHOOSE i \in S : \A j \in S : i <= j]
       [] n.k = "oneof"   -> LET R == TLCEval([i \in 1..Len(kids) |-> Eval(kids[i], v, env)])
                                 S == {i \in 1..Len(kids) : R[i].ok}
                             IN IF Cardinality(S) # 1 THEN Fail(v) ELSE R[CHOOSE i \in S : TRUE]
       [] n.k = "array"   -> EvalArray(n, v, env)
       [] n.k = "object"  -> EvalObject(n, v, env)
       [] n.k = "ref"     -> LET i == IndexOfName(env.refs, LastCall(n, "RefersTo").name)
                             IN IF i = 0 THEN Fail(v) ELSE Eval(env.refs[i].c, v, env)

Accepts(c, v, env) == Eval(c, v, env).ok

\* --------------------------------------------------- what may be added ----
\* all defaults declared anywhere: a sequence of [n, v]
RECURSIVE DefaultsIn(_, _)
DefaultsIn(n, env) ==
  IF Has(n, "id") THEN <<>>
  ELSE LET At(x) == /\ x.m = "AddProp"
                    /\ DefaultOf(x.c, env).has
           own == IF n.k # "object" THEN <<>>
                  ELSE LET O == SelectSeq(n.calls, At)
                       IN [i \in 1..Len(O) |-> [n |-> O[i].n, v |-> DefaultOf(O[i].c, env).v]]
           RECURSIVE Sub(_)
           Sub(i) == IF i > Len(n.calls) THEN <<>>
                     ELSE (IF Has(n.calls[i], "c") THEN DefaultsIn(n.calls[i].c, env) ELSE <<>>)
                          \o (IF Has(n.calls[i], "cs")
                              THEN FlattenSeq([k \in 1..Len(n.calls[i].cs) |-> DefaultsIn(n.calls[i].cs[k], env)])
                              ELSE <<>>)
                          \o Sub(i + 1)
       IN own \o Sub(1) \o (IF Has(n, "c") THEN DefaultsIn(n.c, env) ELSE <<>>)
AllDefaults(c, env) ==
  DefaultsIn(c, env)
  \o FlattenSeq([i \in 1..Len(env.heap) |-> DefaultsIn(env.heap[i], env)])
  \o FlattenSeq([i \in 1..Len(env.refs) |-> DefaultsIn(env.refs[i].c, env)])

(* b is a, possibly with some of the defaults D added: all that a failing    *)
(* validation may do to its input.                                           *)
RECURSIVE Grew(_, _, _, _)
Grew(a, b, D, idiv) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "obj" ->
              /\ \A i \in 1..Len(a.p) :
                   LET j == IndexOfName(b.p, a.p[i].n) IN j # 0 /\ Grew(a.p[i].v, b.p[j].v, D, idiv)
              /\ \A j \in 1..Len(b.p) :
                   \/ IndexOfName(a.p, b.p[j].n) # 0
                   \/ \E k \in 1..Len(D) : D[k].n = b.p[j].n /\ Same(D[k].v, b.p[j].v)
         [] a.t = "arr" -> /\ Len(a.e) = Len(b.e)
                           /\ \A i \in 1..Len(a.e) : Grew(a.e[i], b.e[i], D, idiv)
         [] a.t = "ptr" -> Grew(a.to, b.to, D, idiv)
         [] a.t = "struct" ->
              /\ Len(a.f) = Len(b.f)
              /\ \A i \in 1..Len(a.f) :
                   IF a.f[i].maybe
                   THEN IF a.f[i].valid THEN b.f[i].valid /\ Grew(a.f[i].v, b.f[i].v, D, idiv)
                        ELSE b.f[i].valid => \E k \in 1..Len(D) :
                                                /\ D[k].n = JName(a.f[i])
                                                /\ MaybeStore(a.f[i].mk, D[k].v, idiv).ok
                                                /\ Same(MaybeStore(a.f[i].mk, D[k].v, idiv).v, b.f[i].v)
                   ELSE Grew(HeldBy(a.f[i]), HeldBy(b.f[i]), D, idiv)
         [] a.t = "hook" ->
              /\ Grew([t |-> "struct", f |-> a.f], [t |-> "struct", f |-> b.f], D, idiv)
              /\ \A j \in 1..Len(b.vals) :
                   LET i == IndexOfName(a.vals, b.vals[j].n)
                       added == ~b.vals[j].f.maybe /\ \E k \in 1..Len(D) : D[k].n = b.vals[j].n /\ Same(D[k].v, b.vals[j].f.v)
                   IN IF i = 0 THEN added
                      ELSE \/ a.vals[i].f.maybe = b.vals[j].f.maybe /\ a.vals[i].f.valid = b.vals[j].f.valid /\ Grew(a.vals[i].f.v, b.vals[j].f.v, D, idiv)
                           \/ a.vals[i].f.maybe /\ ~a.vals[i].f.valid /\ added
              /\ NamesOf(a.vals) \subseteq NamesOf(b.vals)
         [] OTHER -> Same(a, b)
=============================================================================
