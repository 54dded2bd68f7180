-------------------------------- MODULE JVal --------------------------------
(* The value universe of go-jsval: every Go value that can be offered for    *)
(* validation, abstracted to a record with a tag `t`.                        *)
(*   nil                          the nil interface                          *)
(*   bool [b]                     bool or a named bool                       *)
(*   num  [g, q]                  Go numeric type g, value q units; a unit is*)
(*                                a power of two fixed per behaviour, and q  *)
(*                                is integral iff IsIntQ(q, idiv)            *)
(*   str  [s]                     string; text is a sequence of code points  *)
(*   arr  [e]                     a slice                                    *)
(*   obj  [g, p]                  a string-keyed map; p is a sequence of     *)
(*                                [n, v] with distinct names; g names the Go *)
(*                                element type (which values can be stored)  *)
(*   struct [f]                   a struct; f is the sequence of its fields  *)
(*   hook [f, ...]                a struct whose type has property methods   *)
(*   ptr  [to]                    a non-nil pointer                          *)
(*   nilof [g]                    a typed nil: ptr, map, slice, chan, func   *)
(*   other [g]                    anything else (chan, func, complex, arrays,*)
(*                                maps with non-string keys, ...)            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Has(r, f) == f \in DOMAIN r

FloatKinds == {"f32", "f64"}

IsIntQ(q, idiv) == IF idiv = 0 THEN q = 0 ELSE q % idiv = 0

Deref(v) == IF v.t = "ptr" THEN v.to ELSE v

\* Index of the pair called n in a sequence of records with field n, else 0.
IndexOfName(p, n) ==
  LET S == {i \in 1..Len(p) : p[i].n = n}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i

NamesOf(p) == {p[i].n : i \in 1..Len(p)}

(* JSON equality: what an enumeration and uniqueItems compare.  Numbers are  *)
(* compared numerically whatever their Go type.                              *)
RECURSIVE JEq(_, _)
JEq(a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "nil"  -> TRUE
         [] a.t = "bool" -> a.b = b.b
         [] a.t = "num"  -> a.q = b.q
         [] a.t = "str"  -> a.s = b.s
         [] a.t = "arr"  -> /\ Len(a.e) = Len(b.e)
                            /\ \A i \in 1..Len(a.e) : JEq(a.e[i], b.e[i])
         [] a.t = "obj"  -> /\ Len(a.p) = Len(b.p)
                            /\ \A i \in 1..Len(a.p) :
                                 LET j == IndexOfName(b.p, a.p[i].n)
                                 IN j # 0 /\ JEq(a.p[i].v, b.p[j].v)
         [] OTHER -> FALSE

(* Sameness of Go values, used to compare an input before and after a call:  *)
(* Go numeric types count, field states count, map order does not.           *)
RECURSIVE Same(_, _)
\* what a field holds: an embedded pointer may be nil
HeldBy(f) == IF "emb" \in DOMAIN f /\ "nilp" \in DOMAIN f /\ f.emb /\ f.nilp THEN [t |-> "nil"] ELSE f.v
SameF(f, g) == /\ f.maybe = g.maybe
               /\ IF f.maybe THEN f.valid = g.valid /\ (f.valid => Same(f.v, g.v)) ELSE Same(HeldBy(f), HeldBy(g))
Same(a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "nil"    -> TRUE
         [] a.t = "bool"   -> a.b = b.b
         [] a.t = "num"    -> a.q = b.q /\ a.g = b.g
         [] a.t = "str"    -> a.s = b.s
         [] a.t = "time"   -> a.s = b.s
         [] a.t = "arr"    -> /\ Len(a.e) = Len(b.e)
                              /\ \A i \in 1..Len(a.e) : Same(a.e[i], b.e[i])
         [] a.t = "obj"    -> /\ Len(a.p) = Len(b.p)
                              /\ \A i \in 1..Len(a.p) :
                                   LET j == IndexOfName(b.p, a.p[i].n)
                                   IN j # 0 /\ Same(a.p[i].v, b.p[j].v)
         [] a.t = "struct" -> /\ Len(a.f) = Len(b.f)
                              /\ \A i \in 1..Len(a.f) :
                                   SameF(a.f[i], b.f[i])
         [] a.t = "hook"   -> /\ Same([t |-> "struct", f |-> a.f], [t |-> "struct", f |-> b.f])
                              /\ Len(a.vals) = Len(b.vals)
                              /\ \A i \in 1..Len(a.vals) :
                                   LET j == IndexOfName(b.vals, a.vals[i].n)
                                   IN j # 0 /\ SameF(a.vals[i].f, b.vals[j].f)
         [] a.t = "ptr"    -> Same(a.to, b.to)
         [] a.t = "nilof"  -> a.g = b.g
         [] OTHER          -> TRUE        \* the same opaque thing
=============================================================================
