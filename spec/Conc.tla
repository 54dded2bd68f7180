-------------------------------- MODULE Conc --------------------------------
(* Shared constraints used by several threads.  State: registrations,        *)
(* resolutions that stuck, and the configuration of every object.  Every     *)
(* operation but the validation of an object takes effect at one instant     *)
(* between its call and its return.  The validation of an object takes time: *)
(* everything added before it began counts, anything added while it ran may  *)
(* count or not (each name or rule by itself), nothing added later counts.   *)
EXTENDS Cons

\* st == [refs, stick, heap]   refs: seq of [n, c] (c: heap index), stick: reference -> index or 0
LookupId(st, n) == LET i == IndexOfName(st.refs, n) IN IF i = 0 THEN 0 ELSE st.refs[i].c
SetRef(st, n, c) == LET i == IndexOfName(st.refs, n)
                    IN IF i = 0 THEN [st EXCEPT !.refs = Append(@, [n |-> n, c |-> c])] ELSE [st EXCEPT !.refs[i].c = c]
RefName(st, r) == LastCall(st.heap[r], "RefersTo").name
Target(st, r) == IF st.stick[r] # 0 THEN st.stick[r] ELSE LookupId(st, RefName(st, r))
Stick(st, r) == [st EXCEPT !.stick[r] = Target(st, r)]
EnvOfHeap(hp, idiv) == [heap |-> hp, refs |-> <<>>, idiv |-> idiv]
\* additions one name at a time
Split1(call) == CASE call.m \in {"Required", "PropDependency"} -> [i \in 1..Len(call.ns) |-> [call EXCEPT !.ns = <<call.ns[i]>>]]
                  [] OTHER -> <<call>>
Configure(st, o, call) == [st EXCEPT !.heap[o].calls = @ \o Split1(call)]

\* operations with an instant: the state afterwards if the recorded result is right, else nothing
Instant(op) == op.f # "vobj"
Effect(st, op, idiv) ==
  CASE op.f = "setref" -> {SetRef(st, op.n, op.c)}
    [] op.f = "getref" -> IF LookupId(st, op.n) = op.r THEN {st} ELSE {}
    [] op.f = "len" -> IF Len(st.refs) = op.r THEN {st} ELSE {}
    [] op.f = "resolved" -> IF Target(st, op.o) = op.r THEN {Stick(st, op.o)} ELSE {}
    [] op.f = "vref" -> LET t == Target(st, op.o)
                            ok == t # 0 /\ Eval([id |-> t], op.v, EnvOfHeap(st.heap, idiv)).ok
                        IN IF ok = op.ok THEN {Stick(st, op.o)} ELSE {}
    [] op.f = "conf" -> {Configure(st, op.o, op.call)}
    [] op.f = "isreq" -> IF (op.n \in RequiredNames(st.heap[op.o])) = op.ok THEN {st} ELSE {}
    [] op.f = "deps" -> IF PropDeps(st.heap[op.o], op.n) = {op.ns[i] : i \in 1..Len(op.ns)} THEN {st} ELSE {}
    [] op.f = "sdep" -> LET c == IF op.n \in SchemaDepNames(st.heap[op.o]) THEN SchemaDepC(st.heap[op.o], op.n).id ELSE 0
                        IN IF c = op.r THEN {st} ELSE {}
\* the verdicts a validation may give that began when object o had nb calls
RECURSIVE Subs(_)
Subs(s) == IF s = <<>> THEN {<<>>} ELSE LET R == Subs(Tail(s)) IN R \cup {<<Head(s)>> \o t : t \in R}
Verdicts(st, o, v, nb, idiv) ==
  LET all == st.heap[o].calls
      before == SubSeq(all, 1, nb)
      during == SubSeq(all, nb + 1, Len(all))
  IN {Eval([k |-> st.heap[o].k, calls |-> before \o s], v, EnvOfHeap(st.heap, idiv)).ok : s \in Subs(during)}
=============================================================================
