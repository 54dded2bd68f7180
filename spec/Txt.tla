-------------------------------- MODULE Txt ---------------------------------
(* JSON texts, as sequences of code points.                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

IsDigit(c) == 48 <= c /\ c <= 57
IsHex(c) == IsDigit(c) \/ (97 <= c /\ c <= 102) \/ (65 <= c /\ c <= 70)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsWs(c) == c \in {32, 9, 10, 13}

Trim(t) ==
  LET S == {i \in 1..Len(t) : ~IsWs(t[i])}
  IN IF S = {} THEN <<>>
     ELSE SubSeq(t, CHOOSE i \in S : \A j \in S : i <= j, CHOOSE i \in S : \A j \in S : i >= j)

Bad == [ok |-> FALSE]
Good(s) == [ok |-> TRUE, s |-> s]

\* ------------------------------------------------------------ numbers -----
Digits(t) == Len(t) > 0 /\ \A i \in 1..Len(t) : IsDigit(t[i])
Abs1(t) == IF Len(t) > 0 /\ t[1] = 45 THEN Tail(t) ELSE t        \* without a leading minus
Neg(t) == Len(t) > 0 /\ t[1] = 45
IntPart(t) == Digits(t) /\ (Len(t) > 1 => t[1] # 48)
\* -?(0|[1-9][0-9]*)
IsIntText(t) == IntPart(Abs1(t))
\* a JSON number
IsNumText(t0) ==
  LET t == Abs1(t0)
      E == {i \in 1..Len(t) : t[i] \in {101, 69}}
      e == IF E = {} THEN Len(t) + 1 ELSE CHOOSE i \in E : \A j \in E : i <= j
      m == SubSeq(t, 1, e - 1)
      x == SubSeq(t, e + 1, Len(t))
      x1 == IF Len(x) > 0 /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
      P == {i \in 1..Len(m) : m[i] = 46}
      p == IF P = {} THEN Len(m) + 1 ELSE CHOOSE i \in P : \A j \in P : i <= j
  IN /\ IntPart(SubSeq(m, 1, p - 1))
     /\ P # {} => Digits(SubSeq(m, p + 1, Len(m)))
     /\ E # {} => Digits(x1)

\* compare digit strings without leading zeros
LeqDigits(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

MaxI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
MinI64Abs == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
FitsI64(t) == IF Neg(t) THEN LeqDigits(Abs1(t), MinI64Abs) ELSE LeqDigits(t, MaxI64)
FitsU64(t) == ~Neg(t) /\ LeqDigits(t, MaxU64)
NoMinusZero(t) == IF t = <<45, 48>> THEN <<48>> ELSE t
\* a positional decimal cut at the point: truncation towards zero
CutAtPoint(t) ==
  LET P == {i \in 1..Len(t) : t[i] = 46}
  IN NoMinusZero(IF P = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in P : TRUE) - 1))

\* ------------------------------------------------------------ strings -----
LOCAL Hex4(t, i) == HexVal(t[i]) * 4096 + HexVal(t[i + 1]) * 256 + HexVal(t[i + 2]) * 16 + HexVal(t[i + 3])
LOCAL IsU(t, i) == /\ i + 5 <= Len(t) /\ t[i] = 92 /\ t[i + 1] = 117
                   /\ \A k \in 2..5 : IsHex(t[i + k])
LOCAL Esc(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
                  [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1

\* the string a JSON text denotes
RECURSIVE StrFrom(_, _, _)
StrFrom(t, i, acc) ==
  IF i > Len(t) THEN Bad
  ELSE IF t[i] = 34 THEN IF i = Len(t) THEN Good(acc) ELSE Bad
  ELSE IF t[i] < 32 THEN Bad
  ELSE IF t[i] # 92 THEN StrFrom(t, i + 1, Append(acc, t[i]))
  ELSE IF i = Len(t) THEN Bad
  ELSE IF IsU(t, i)
       THEN LET u == Hex4(t, i + 2)
            IN IF u \in 55296..56319 /\ IsU(t, i + 6) /\ Hex4(t, i + 8) \in 56320..57343
               THEN StrFrom(t, i + 12, Append(acc, 65536 + (u - 55296) * 1024 + (Hex4(t, i + 8) - 56320)))
               ELSE IF u \in 55296..57343 THEN StrFrom(t, i + 6, Append(acc, 65533))
               ELSE StrFrom(t, i + 6, Append(acc, u))
  ELSE IF Esc(t[i + 1]) = -1 THEN Bad
  ELSE StrFrom(t, i + 2, Append(acc, Esc(t[i + 1])))
JsonStr(t) == IF Len(t) >= 2 /\ t[1] = 34 THEN StrFrom(t, 2, <<>>) ELSE Bad

LOCAL HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Quote(s) ==
  LET C(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>>
                [] c < 32 -> <<92, 117, 48, 48, HexD(c \div 16), HexD(c % 16)>>
                [] OTHER -> <<c>>
  IN <<34>> \o FlattenSeq([i \in 1..Len(s) |-> C(s[i])]) \o <<34>>
=============================================================================
