------------------------------- MODULE Maybe --------------------------------
(* A Maybe value of kind mk: a validity flag and, while valid, a value.      *)
(*                                                                           *)
(* Numbers are canonical positional decimal texts, so that nothing is lost:  *)
(*   [t |-> "num", g |-> Go type, d |-> digits]                              *)
(* Times are RFC 3339 texts with the shortest fraction, offset 0 as Z.       *)
EXTENDS Txt, Fmt, TLC

Kinds == {"Bool", "Float", "Int", "String", "Time", "Uint"}
Fresh == [valid |-> FALSE]
Holding(v) == [valid |-> TRUE, v |-> v]

\* ---------------------------------------------------------------- times ---
ZoneAt(s) == IF s[Len(s)] = 90 THEN Len(s) ELSE Len(s) - 5
Zone(s) == LET z == SubSeq(s, ZoneAt(s), Len(s))
           IN IF z \in {<<43,48,48,58,48,48>>, <<45,48,48,58,48,48>>} THEN <<90>> ELSE z
\* (nanoseconds: nine digits)
Frac(s) == LET f == SubSeq(s, 20, IF ZoneAt(s) - 1 > 29 THEN 29 ELSE ZoneAt(s) - 1)
               N == {i \in 2..Len(f) : f[i] # 48}
           IN IF N = {} THEN <<>> ELSE SubSeq(f, 1, CHOOSE i \in N : \A j \in N : j <= i)
NormTime(s) == SubSeq(s, 1, 19) \o Frac(s) \o Zone(s)
ToSecond(s) == SubSeq(s, 1, 19) \o Zone(s)

\* ------------------------------------------------------------------ set ---
IntKinds == {"int", "i8", "i16", "i32", "i64"}
UintKinds == {"uint", "u8", "u16", "u32", "u64"}
No == [ok |-> FALSE]
Yes(v) == [ok |-> TRUE, v |-> v]
Num(g, d) == [t |-> "num", g |-> g, d |-> d]

\* what kind mk makes of the Go value x, if it supports its type
Conv(mk, x) ==
  IF x.nm THEN No                                    \* a named type is another type
  ELSE CASE mk = "Bool" -> IF x.t = "bool" THEN Yes([t |-> "bool", b |-> x.b]) ELSE No
         [] mk = "String" -> IF x.t = "str" THEN Yes([t |-> "str", s |-> x.s]) ELSE No
         [] mk = "Float" -> IF x.t = "num" /\ x.g \in {"f32", "f64"} THEN Yes(Num("f64", x.d)) ELSE No
         [] mk = "Int" -> IF x.t = "num" /\ x.g \in IntKinds THEN Yes(Num("i64", x.d))
                          ELSE IF x.t = "num" /\ x.g = "f64" THEN Yes(Num("i64", CutAtPoint(x.d))) ELSE No
         [] mk = "Uint" -> IF x.t = "num" /\ x.g \in UintKinds THEN Yes(Num("u64", x.d))
                           ELSE IF x.t = "num" /\ x.g = "f64" THEN Yes(Num("u64", CutAtPoint(x.d))) ELSE No
         [] mk = "Time" -> IF x.t = "time" THEN Yes([t |-> "time", s |-> x.s])
                           ELSE IF x.t = "str" /\ DateTime(x.s) THEN Yes([t |-> "time", s |-> NormTime(x.s)]) ELSE No

\* --------------------------------------------------------------- decode ---
(* The value a JSON text denotes in kind mk.  fl is the text's value as a    *)
(* binary floating point number ("" if it has none).                         *)
Denotes(mk, text, fl) ==
  LET t == Trim(text)
      str == JsonStr(t)
  IN CASE mk = "Bool" -> IF t = <<116,114,117,101>> THEN Yes([t |-> "bool", b |-> TRUE])
                         ELSE IF t = <<102,97,108,115,101>> THEN Yes([t |-> "bool", b |-> FALSE]) ELSE No
       [] mk = "Int" -> IF IsIntText(t) /\ FitsI64(t) THEN Yes(Num("i64", NoMinusZero(t))) ELSE No
       [] mk = "Uint" -> IF IsIntText(t) /\ FitsU64(t) THEN Yes(Num("u64", t)) ELSE No
       [] mk = "Float" -> IF IsNumText(t) /\ Len(fl) > 0 THEN Yes(Num("f64", fl)) ELSE No
       [] mk = "String" -> IF str.ok THEN Yes([t |-> "str", s |-> str.s]) ELSE No
       [] mk = "Time" -> IF str.ok /\ DateTime(str.s) THEN Yes([t |-> "time", s |-> NormTime(str.s)]) ELSE No

\* --------------------------------------------------------------- encode ---
\* text is the JSON text of v (fl: its value as a floating point number)
TextOf(v, text, fl) ==
  CASE v.t = "bool" -> text = (IF v.b THEN <<116,114,117,101>> ELSE <<102,97,108,115,101>>)
    [] v.t = "num" -> IF v.g = "f64" THEN IsNumText(text) /\ fl = v.d ELSE text = v.d
    [] v.t = "str" -> LET r == JsonStr(text) IN r.ok /\ r.s = v.s
    [] v.t = "time" -> LET r == JsonStr(text) IN r.ok /\ r.s = ToSecond(v.s)
\* one such text
Encoding(v) ==
  CASE v.t = "bool" -> IF v.b THEN <<116,114,117,101>> ELSE <<102,97,108,115,101>>
    [] v.t = "num" -> v.d
    [] v.t = "str" -> Quote(v.s)
    [] v.t = "time" -> Quote(ToSecond(v.s))
\* what a decoded encoding holds
AfterRoundTrip(v) == IF v.t = "time" THEN [v EXCEPT !.s = ToSecond(v.s)] ELSE v

\* ----------------------------------------------------------- operations ---
\* op: [o |-> "set", x], [o |-> "dec", text, fl], [o |-> "reset"]
Result(mk, op) == CASE op.o = "set" -> Conv(mk, op.x)
                    [] op.o = "dec" -> Denotes(mk, op.text, op.fl)
                    [] op.o = "reset" -> Yes(op)
Step(mk, st, op) ==
  LET r == Result(mk, op)
  IN IF ~r.ok THEN [err |-> TRUE, st |-> st]
     ELSE [err |-> FALSE, st |-> IF op.o = "reset" THEN Fresh ELSE Holding(r.v)]
=============================================================================
