------------------------------ MODULE MCJoint -------------------------------
(* Several validators in one generated file, each with references of its own *)
(* that may have the same names.  A file holds a number of maps; a validator *)
(* may use a map only if the two agree about every name they have in common. *)
(* Worlds are added one at a time; every choice of a map that agrees (or of  *)
(* a new one) is explored, since any of them has to preserve the meaning.    *)
EXTENDS Gen, Json
CONSTANTS N, Careful    \* Careful = FALSE: maps are shared whatever they say; the law must then fail
X == <<120>>
Y == <<121>>
Str(s) == [t |-> "str", s |-> s]
Ref(n) == [k |-> "ref", calls |-> <<[m |-> "RefersTo", name |-> n]>>]
Enum(s) == [k |-> "enum", calls |-> <<[m |-> "Enum", vs |-> <<Str(s)>>]>>]
Obj(c) == [k |-> "object", calls |-> <<[m |-> "AddProp", n |-> <<112>>, c |-> c]>>]
Bool == [k |-> "bool", calls |-> <<>>]
None == [k |-> "none"]
Def(s) == [k |-> "string", calls |-> <<[m |-> "Default", v |-> Str(s)]>>]
XBodies == {None, Enum(<<97>>), Enum(<<98>>), Ref(Y), Obj(Ref(Y)), Obj(Ref(X))}
YBodies == {None, Def(<<97>>), Def(<<98>>), Bool}
Roots == {Ref(X), Ref(Y), Obj(Ref(X)), Bool}
RECURSIVE Needs(_)
Needs(c) == CASE c.k = "ref" -> {c.calls[1].name}
              [] c.k = "object" -> Needs(c.calls[1].c)
              [] OTHER -> {}
Given(x, y) == (IF x = None THEN {} ELSE {X}) \cup (IF y = None THEN {} ELSE {Y})
World(x, y, r) == [refs |-> (IF x = None THEN <<>> ELSE <<[n |-> X, c |-> x]>>) \o (IF y = None THEN <<>> ELSE <<[n |-> Y, c |-> y]>>), root |-> r]
Worlds == {World(w[1], w[2], w[3]) : w \in {w \in XBodies \X YBodies \X Roots : Needs(w[1]) \cup Needs(w[2]) \cup Needs(w[3]) \subseteq Given(w[1], w[2])}}
EnvOf(w) == [heap |-> <<w.root>>, refs |-> w.refs, idiv |-> 1]
FileOf(w) == File(<<w.root>>, w.refs, EnvOf(w))
\* a map of the file: its registrations so far
Agrees(rs, f) == ~Careful \/ \A i \in 1..Len(rs), j \in 1..Len(f.refs) : rs[i].n = f.refs[j].n => rs[i].c = f.refs[j].c
Union(rs, f) == rs \o SelectSeq(f.refs, LAMBDA r : \A i \in 1..Len(rs) : rs[i].n # r.n)

VARIABLES ws, maps, at
vars == <<ws, maps, at>>
Init == ws = <<>> /\ maps = <<>> /\ at = <<>>
Add(w) ==
  LET f == FileOf(w)
  IN \/ /\ maps' = Append(maps, f.refs) /\ at' = Append(at, Len(maps) + 1)
     \/ \E m \in 1..Len(maps) : Agrees(maps[m], f) /\ maps' = [maps EXCEPT ![m] = Union(@, f)] /\ at' = Append(at, m)
Next == Len(ws) < N /\ \E w \in Worlds : ws' = Append(ws, w) /\ Add(w)
Spec == Init /\ [][Next]_vars

O(p) == [t |-> "obj", g |-> "any", p |-> p]
P(v) == O(<<[n |-> <<112>>, v |-> v]>>)
Vals == <<Str(<<97>>), Str(<<98>>), [t |-> "bool", b |-> TRUE], O(<<>>), P(Str(<<97>>)), P(Str(<<98>>)), P([t |-> "bool", b |-> FALSE]), P(O(<<>>)), P(P(Str(<<97>>))), [t |-> "nil"]>>
\* ---------------------------------------------------------------- the law -
\* a validator of the file means what the original means, whoever shares its map
Preserved ==
  \A i \in 1..Len(ws) :
    LET own == EnvOf(ws[i])
        f == FileOf(ws[i])
        env == [heap |-> f.vals, refs |-> maps[at[i]], idiv |-> 1]
    IN /\ \A j \in 1..Len(Vals) : Eval([id |-> 1], Vals[j], own) = Eval([id |-> 1], Vals[j], env)
       /\ \A j \in 1..Len(ws[i].refs) : /\ DefaultOf(ws[i].refs[j].c, own) = DefaultOf(Ref(ws[i].refs[j].n), env)
                                        /\ \A k \in 1..Len(Vals) : Eval(ws[i].refs[j].c, Vals[k], own).ok = Eval(Ref(ws[i].refs[j].n), Vals[k], env).ok
\* ------------------------------------------------------------------ cases --
Case(w) == [sh |-> 0, idiv |-> 1, refs |-> w.refs, heap |-> <<w.root>>,
            ev |-> [i \in 1..Len(Vals) |-> [e |-> "val", c |-> [id |-> 1], v |-> Vals[i]]] \o <<[e |-> "def", c |-> [id |-> 1]]>>
                   \o FlattenSeq([j \in 1..Len(w.refs) |-> [i \in 1..4 |-> [e |-> "val", c |-> Ref(w.refs[j].n), v |-> Vals[i], o |-> 1]]])]
\* one case per sequence of worlds, whatever the maps (all choices mean the same)
Fresh == \A i \in 1..Len(at) : at[i] = i
Emit == (Len(ws) = N /\ Fresh) => PrintT(<<"CASE", ToJson([parts |-> [i \in 1..N |-> Case(ws[i])]])>>)
=============================================================================
