------------------------------- MODULE MCBig --------------------------------
(* The arithmetic of Big against that of TLC, on all numbers i * 2^-F.       *)
EXTENDS Big
CONSTANTS M, F, P
VARIABLES i, j
\* the encoding of i * 2^-F
RECURSIVE Bits(_)
Bits(k) == IF k = 0 THEN <<>> ELSE Bits(k \div 2) \o <<k % 2>>
Abs(k) == IF k < 0 THEN -k ELSE k
Enc(k) == IF k = 0 THEN Zero ELSE Trim([s |-> IF k < 0 THEN -1 ELSE 1, b |-> Bits(Abs(k)), e |-> -F])
Init == i \in -M..M /\ j \in -M..M
Next == UNCHANGED <<i, j>>
Spec == Init /\ [][Next]_<<i, j>>
\* laws
Order == Cmp(Enc(i), Enc(j)) = (IF i > j THEN 1 ELSE IF i < j THEN -1 ELSE 0)
Whole == Integral(Enc(i)) = (i % (2^F) = 0)
RECURSIVE Odd(_)
Odd(k) == IF k % 2 = 1 THEN [o |-> k, x |-> -F] ELSE LET r == Odd(k \div 2) IN [r EXCEPT !.x = @ + 1]
Divides == j > 0 => Multiple(Enc(i), Odd(j).o, Odd(j).x) = (Abs(i) % j = 0)
RECURSIVE Unit(_, _)
Unit(k, u) == IF k < 2^P * u THEN u ELSE Unit(k, 2 * u)
Nearest(k) == LET u == Unit(k, 1)
                  d == (k \div u) * u
                  r == k - d
              IN IF 2 * r < u \/ (2 * r = u /\ (d \div u) % 2 = 0) THEN d ELSE d + u
Rounds == Round(Enc(i), P) = Enc(IF i < 0 THEN -Nearest(-i) ELSE Nearest(i))
Monotone == Cmp(Enc(i), Enc(j)) <= 0 => Cmp(Round(Enc(i), P), Round(Enc(j), P)) <= 0
=============================================================================
