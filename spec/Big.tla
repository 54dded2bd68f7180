-------------------------------- MODULE Big --------------------------------
(* Numbers of any size, exactly: [s, b, e] is s * (b as a binary numeral) *  *)
(* 2^e, with s in {-1, 0, 1}, b a sequence of bits that starts and ends with *)
(* 1 (<<>> for zero).  What a number or integer constraint says about them.  *)
EXTENDS Naturals, Integers, Sequences, TLC

Zero == [s |-> 0, b |-> <<>>, e |-> 0]
BitAt(n, p) == LET i == n.e + Len(n.b) - p IN IF i >= 1 /\ i <= Len(n.b) THEN n.b[i] ELSE 0  \* the bit worth 2^p
Top(n) == n.e + Len(n.b)                    \* 2^(Top-1) <= |n| < 2^Top
Min2(x, y) == IF x < y THEN x ELSE y
\* -1, 0 or 1: |a| against |b|, both not zero
RECURSIVE CmpBits(_, _, _, _)
CmpBits(a, b, p, lo) == IF p < lo THEN 0
                        ELSE IF BitAt(a, p) # BitAt(b, p) THEN (IF BitAt(a, p) > BitAt(b, p) THEN 1 ELSE -1)
                        ELSE CmpBits(a, b, p - 1, lo)
CmpMag(a, b) == IF Top(a) # Top(b) THEN (IF Top(a) > Top(b) THEN 1 ELSE -1)
                ELSE CmpBits(a, b, Top(a) - 1, Min2(a.e, b.e))
Cmp(a, b) == IF a.s # b.s THEN (IF a.s > b.s THEN 1 ELSE -1)
             ELSE IF a.s = 0 THEN 0 ELSE a.s * CmpMag(a, b)

\* without zeros at the end
RECURSIVE Trim(_)
Trim(n) == IF n.b = <<>> THEN Zero
           ELSE IF n.b[Len(n.b)] = 0 THEN Trim([n EXCEPT !.b = SubSeq(@, 1, Len(@) - 1), !.e = @ + 1]) ELSE n
RECURSIVE Incr(_)
Incr(b) == IF b = <<>> THEN <<1>>
           ELSE IF b[Len(b)] = 0 THEN SubSeq(b, 1, Len(b) - 1) \o <<1>> ELSE Incr(SubSeq(b, 1, Len(b) - 1)) \o <<0>>
\* the nearest number of p significant bits, the one with an even last bit if there are two
Round(n, p) ==
  IF Len(n.b) <= p THEN n
  ELSE LET keep == SubSeq(n.b, 1, p)
           half == n.b[p + 1] = 1
           more == \E i \in p + 2..Len(n.b) : n.b[i] = 1
           up == half /\ (more \/ keep[p] = 1)
       IN Trim([n EXCEPT !.b = IF up THEN Incr(keep) ELSE keep, !.e = @ + Len(n.b) - p])
Double(n) == Round(n, 53)
Integral(n) == n.s = 0 \/ n.e >= 0

\* n is a multiple of o * 2^x, o odd and less than 2^29
RECURSIVE ModBits(_, _, _, _, _)
ModBits(n, p, lo, o, r) == IF p < lo THEN r ELSE ModBits(n, p - 1, lo, o, (2 * r + BitAt(n, p)) % o)
Multiple(n, o, x) == n.s = 0 \/ (n.e >= x /\ ModBits(n, Top(n) - 1, x, o, 0) = 0)

\* ------------------------------------------------------------ constraint --
Floats == {"f64", "f32"}
Made(k) == [k |-> k, min |-> [on |-> FALSE, v |-> Zero, ex |-> FALSE], max |-> [on |-> FALSE, v |-> Zero, ex |-> FALSE],
            mul |-> [on |-> FALSE, o |-> 0, x |-> 0], enum |-> [on |-> FALSE, vs |-> <<>>]]
Call(c, x) ==
  CASE x.m = "Minimum" -> [c EXCEPT !.min.on = TRUE, !.min.v = x.v]
    [] x.m = "Maximum" -> [c EXCEPT !.max.on = TRUE, !.max.v = x.v]
    [] x.m = "ExclusiveMinimum" -> [c EXCEPT !.min.ex = x.on]
    [] x.m = "ExclusiveMaximum" -> [c EXCEPT !.max.ex = x.on]
    [] x.m = "MultipleOf" -> [c EXCEPT !.mul = [on |-> TRUE, o |-> x.mo, x |-> x.me]]
    [] x.m = "Enum" -> [c EXCEPT !.enum = [on |-> TRUE, vs |-> x.vs]]
Accepts(c, v) ==
  LET f == Double(v) IN
  /\ IF c.k = "number" THEN v.g \in Floats ELSE Integral(v)
  /\ c.min.on => LET k == Cmp(f, c.min.v) IN IF c.min.ex THEN k > 0 ELSE k >= 0
  /\ c.max.on => LET k == Cmp(f, c.max.v) IN IF c.max.ex THEN k < 0 ELSE k <= 0
  /\ (c.mul.on /\ c.mul.o # 0) => Multiple(f, c.mul.o, c.mul.x)
  /\ c.enum.on => \E i \in 1..Len(c.enum.vs) : Cmp(f, Double(c.enum.vs[i])) = 0
=============================================================================
