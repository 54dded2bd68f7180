-------------------------------- MODULE Fmt ---------------------------------
(* The string formats, as grammars over code points.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LOCAL Digit(c) == 48 <= c /\ c <= 57
LOCAL Letter(c) == (97 <= c /\ c <= 122) \/ (65 <= c /\ c <= 90)
LOCAL Hex(c) == Digit(c) \/ (97 <= c /\ c <= 102) \/ (65 <= c /\ c <= 70)

\* the pieces of s between occurrences of ch (always at least one piece)
LOCAL Cuts(s, ch) == SetToSortSeq({i \in 1..Len(s) : s[i] = ch}, <)
Split(s, ch) ==
  LET P == <<0>> \o Cuts(s, ch) \o <<Len(s) + 1>>
  IN [k \in 1..(Len(P) - 1) |-> SubSeq(s, P[k] + 1, P[k + 1] - 1)]

LOCAL NumVal(s) ==
  LET RECURSIVE N(_)
      N(k) == IF k = 0 THEN 0 ELSE N(k - 1) * 10 + (s[k] - 48)
  IN N(Len(s))

LOCAL AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Digit(s[i])

(* RFC 1035 style host name; a single trailing dot is allowed.               *)
Hostname(s) ==
  /\ Len(s) \in 1..255
  /\ \A i \in 1..Len(s) : Letter(s[i]) \/ Digit(s[i]) \/ s[i] \in {95, 45, 46}
  /\ \E i \in 1..Len(s) : Letter(s[i]) \/ s[i] = 95
  /\ LET L == Split(s, 46)
         n == IF Len(L) > 1 /\ Len(L[Len(L)]) = 0 THEN Len(L) - 1 ELSE Len(L)
     IN \A k \in 1..n : /\ Len(L[k]) \in 1..63
                        /\ L[k][1] # 45
                        /\ L[k][Len(L[k])] # 45

IPv4(s) ==
  LET P == Split(s, 46)
  IN /\ Len(P) = 4
     /\ \A k \in 1..4 : /\ AllDigits(P[k]) /\ Len(P[k]) <= 3
                        /\ (Len(P[k]) > 1 => P[k][1] # 48)
                        /\ NumVal(P[k]) <= 255

\* number of 16-bit groups denoted by a colon separated run of groups whose
\* last member may be a dotted quad (only if v4ok); -1 if malformed
LOCAL GroupCount(s, v4ok) ==
  IF Len(s) = 0 THEN 0
  ELSE LET P == Split(s, 58)
           n == Len(P)
           H(x) == Len(x) \in 1..4 /\ \A i \in 1..Len(x) : Hex(x[i])
       IN IF \A k \in 1..(n - 1) : H(P[k])
          THEN IF H(P[n]) THEN n
               ELSE IF v4ok /\ IPv4(P[n]) THEN n + 1 ELSE -1
          ELSE -1

IPv6(s) ==
  LET D == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
  IN /\ \E i \in 1..Len(s) : s[i] = 58
     /\ IF D = {} THEN GroupCount(s, TRUE) = 8
        ELSE /\ Cardinality(D) = 1
             /\ LET i == CHOOSE x \in D : TRUE
                    a == GroupCount(SubSeq(s, 1, i - 1), FALSE)
                    b == GroupCount(SubSeq(s, i + 2, Len(s)), TRUE)
                IN a >= 0 /\ b >= 0 /\ a + b <= 7

LOCAL Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
LOCAL DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                      ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

(* RFC 3339 date-time.                                                       *)
DateTime(s) ==
  LET n == Len(s)
      D(a, b) == a <= b /\ b <= n /\ \A i \in a..b : Digit(s[i])
      N(a, b) == NumVal(SubSeq(s, a, b))
  IN /\ n >= 20
     /\ D(1, 4) /\ s[5] = 45 /\ D(6, 7) /\ s[8] = 45 /\ D(9, 10) /\ s[11] = 84
     /\ D(12, 13) /\ s[14] = 58 /\ D(15, 16) /\ s[17] = 58 /\ D(18, 19)
     /\ N(6, 7) \in 1..12
     /\ N(9, 10) \in 1..DaysIn(N(1, 4), N(6, 7))
     /\ N(12, 13) <= 23 /\ N(15, 16) <= 59 /\ N(18, 19) <= 59
     /\ LET z == IF s[n] = 90 THEN n ELSE n - 5        \* start of the offset
        IN /\ z >= 20
           /\ IF s[n] = 90 THEN TRUE
              ELSE /\ s[z] \in {43, 45} /\ D(z + 1, z + 2) /\ s[z + 3] = 58 /\ D(z + 4, z + 5)
                   /\ N(z + 1, z + 2) <= 23 /\ N(z + 4, z + 5) <= 59
           /\ \/ z = 20
              \/ /\ s[20] = 46 /\ z > 21 /\ D(21, z - 1)

LOCAL AText(c) == \/ Letter(c) \/ Digit(c) \/ c > 127
                  \/ c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126}
LOCAL DotAtom(s) ==
  LET P == Split(s, 46)
  IN \A k \in 1..Len(P) : Len(P[k]) > 0 /\ \A i \in 1..Len(P[k]) : AText(P[k][i])

(* addr-spec restricted to dot-atoms (the generators use no quoting,         *)
(* comments, display names or domain literals).                              *)
Email(s) ==
  LET P == Split(s, 64)
  IN Len(P) = 2 /\ DotAtom(P[1]) /\ DotAtom(P[2])

(* URI references (RFC 3986 section 4.1, with the leniency of net/url about  *)
(* opaque parts and queries, which may hold anything).  Zone identifiers in  *)
(* an IP literal are left out; no text offered has one.                      *)
LOCAL First(s, ch) ==      \* index of the first ch, 0 if there is none
  LET S == {i \in 1..Len(s) : s[i] = ch}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
LOCAL LastOf(s, ch) ==
  LET S == {i \in 1..Len(s) : s[i] = ch}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i >= j
LOCAL Upto(s, i) == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
LOCAL After(s, i) == IF i = 0 THEN <<>> ELSE SubSeq(s, i + 1, Len(s))
LOCAL Escapes(s) == \A i \in 1..Len(s) : s[i] = 37 =>
                       i + 2 <= Len(s) /\ Hex(s[i + 1]) /\ Hex(s[i + 2])
LOCAL SchemeLen(s) ==      \* position of the colon after a scheme, else 0
  LET c == First(s, 58)
  IN IF c > 1 /\ Letter(s[1]) /\ \A i \in 1..(c - 1) : Letter(s[i]) \/ Digit(s[i]) \/ s[i] \in {43, 45, 46}
     THEN c ELSE 0
LOCAL OptPort(s) == Len(s) = 0 \/ (s[1] = 58 /\ \A i \in 2..Len(s) : Digit(s[i]))
LOCAL HostChar(c) == \/ Letter(c) \/ Digit(c) \/ c > 127
                     \/ c \in {45, 95, 46, 126, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 58, 91, 93, 60, 62, 34}
\* escapes in a host stand for non-ASCII bytes only (or for "%")
LOCAL HostText(s) ==
  /\ Escapes(s)
  /\ \A i \in 1..Len(s) : s[i] = 37 => (~(s[i + 1] \in 48..55) \/ (s[i + 1] = 50 /\ s[i + 2] = 53))
  /\ \A i \in 1..Len(s) : s[i] = 37 \/ HostChar(s[i])
LOCAL Host(s) ==
  LET o == LastOf(s, 91)
      e == LastOf(s, 93)
      c == LastOf(s, 58)
  IN IF o > 1 THEN FALSE
     ELSE IF o = 1 THEN /\ e > 1 /\ OptPort(SubSeq(s, e + 1, Len(s)))
                        /\ IPv6(SubSeq(s, 2, e - 1))
     ELSE /\ c # 0 => OptPort(SubSeq(s, c, Len(s)))
          /\ HostText(s)
LOCAL UserChar(c) == Letter(c) \/ Digit(c) \/ c \in {45, 46, 95, 58, 126, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 37, 64}
LOCAL Authority(s) ==
  LET a == LastOf(s, 64)
      u == SubSeq(s, 1, a - 1)
      c == First(u, 58)
  IN /\ Host(After(<<64>> \o s, IF a = 0 THEN 1 ELSE a + 1))
     /\ a # 0 => /\ \A i \in 1..Len(u) : UserChar(u[i])
                 /\ Escapes(Upto(u, c)) /\ Escapes(After(u, c))
LOCAL Starts(s, n) == Len(s) >= n /\ \A i \in 1..n : s[i] = 47
Uri(s) ==
  LET h == First(s, 35)
      u == Upto(s, h)
      c == SchemeLen(u)
      r0 == IF c = 0 THEN u ELSE After(u, c)
      r == Upto(r0, First(r0, 63))
      auth == Starts(r, 2) /\ (c # 0 \/ ~Starts(r, 3))
      rest == SubSeq(r, 3, Len(r))
      sl == First(rest, 47)
  IN /\ \A i \in 1..Len(u) : u[i] > 31 /\ u[i] # 127
     /\ Escapes(After(s, h))
     /\ (Len(u) > 0 => u[1] # 58)
     /\ IF ~Starts(r, 1) /\ c # 0 THEN TRUE              \* opaque
        ELSE IF auth THEN /\ Authority(Upto(rest, sl))
                          /\ Escapes(IF sl = 0 THEN <<>> ELSE SubSeq(rest, sl, Len(rest)))
        ELSE /\ Escapes(r)
             /\ ~Starts(r, 1) => First(Upto(r, First(r, 47)), 58) = 0

FormatOk(f, s) ==
  CASE f \in {"date-time", "datetime"} -> DateTime(s)
    [] f = "hostname" -> Hostname(s)
    [] f = "ipv4"     -> IPv4(s)
    [] f = "ipv6"     -> IPv6(s)
    [] f = "email"    -> Email(s)
    [] f = "uri"      -> Uri(s)
    [] OTHER          -> TRUE
=============================================================================
