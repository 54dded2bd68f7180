------------------------------ MODULE MCMaybe -------------------------------
(* Every history of up to N operations on a Maybe of every kind.             *)
EXTENDS Maybe, Json
CONSTANT N
X(r) == [o |-> "set", x |-> r]
D(t) == [o |-> "dec", text |-> t, fl |-> IF IsNumText(Trim(t)) THEN NoMinusZero(Trim(t)) ELSE <<>>]
n(g, d) == X([t |-> "num", g |-> g, d |-> d, nm |-> FALSE])
s(x) == X([t |-> "str", s |-> x, nm |-> FALSE])
Reset == [o |-> "reset"]
T1 == <<50,48,49,54,45,48,50,45,50,57,84,49,50,58,51,48,58,48,48,46,53,48,43,48,57,58,48,48>>   \* 2016-02-29T12:30:00.50+09:00
T2 == <<49,57,57,57,45,49,50,45,51,49,84,50,51,58,53,57,58,53,57,45,48,48,58,48,48>>              \* 1999-12-31T23:59:59-00:00
T3 == <<50,48,49,53,45,48,50,45,50,57,84,49,50,58,51,48,58,48,48,90>>                             \* 2015-02-29: no such day
Ops(mk) ==
  CASE mk = "Bool" -> <<Reset, X([t |-> "bool", b |-> TRUE, nm |-> FALSE]), X([t |-> "bool", b |-> FALSE, nm |-> FALSE]), X([t |-> "bool", b |-> TRUE, nm |-> TRUE]),
                        s(<<97>>), D(<<116,114,117,101>>), D(<<102,97,108,115,101>>), D(<<49>>)>>
    [] mk = "Float" -> <<Reset, n("f64", <<49,46,53>>), n("f32", <<45,50>>), n("int", <<49>>), D(<<49,46,50,53>>), D(<<45,51>>), D(<<34,49,34>>), D(<<49,46>>)>>
    [] mk = "Int" -> <<Reset, n("int", <<45,51>>), n("f64", <<45,49,46,53>>), n("uint", <<51>>), n("i8", <<55>>), D(<<45,55>>), D(MaxI64), D(MaxU64), D(<<49,46,53>>)>>
    [] mk = "Uint" -> <<Reset, n("uint", <<51>>), n("f64", <<50,46,53>>), n("int", <<51>>), n("u8", <<55>>), D(<<55>>), D(<<45,49>>), D(MaxU64), D(MaxU64 \o <<48>>)>>
    [] mk = "String" -> <<Reset, s(<<>>), s(<<34,233,10,92>>), n("int", <<49>>), D(<<34,97,92,110,92,117,48,48,101,57,34>>), D(<<34,97>>), D(<<49>>), X([t |-> "str", s |-> <<97>>, nm |-> TRUE])>>
    [] mk = "Time" -> <<Reset, s(T1), s(T3), s(<<97>>), X([t |-> "time", s |-> NormTime(T2), nm |-> FALSE]), D(Quote(T2)), D(Quote(T1)), D(Quote(T3)), D(<<49>>)>>

VARIABLES mk, st, hist
vars == <<mk, st, hist>>
Init == mk \in Kinds /\ st = Fresh /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E i \in 1..Len(Ops(mk)) :
             LET op == Ops(mk)[i]
             IN /\ st' = Step(mk, st, op).st
                /\ hist' = Append(hist, i)
        /\ UNCHANGED mk
Spec == Init /\ [][Next]_vars

Op(i) == Ops(mk)[hist[i]]
Succ == {i \in 1..Len(hist) : Result(mk, Op(i)).ok}
LastOk == CHOOSE i \in Succ : \A j \in Succ : j <= i
\* the property, over the history
ValidIffSet == st.valid <=> (Succ # {} /\ Op(LastOk).o # "reset")
HoldsLast == st.valid => st.v = Result(mk, Op(LastOk)).v
FloatOf(v) == IF v.t = "num" THEN v.d ELSE <<>>
RoundTrip == st.valid => /\ TextOf(st.v, Encoding(st.v), FloatOf(st.v))
                         /\ Denotes(mk, Encoding(st.v), FloatOf(st.v)) = Yes(AfterRoundTrip(st.v))
ErrKeeps == [][LET op == Ops(mk)[hist'[Len(hist')]] IN ~Result(mk, op).ok => st' = st]_vars
Emit == Len(hist) = N => PrintT(<<"CASE", ToJson([mk |-> mk, ev |-> [i \in 1..Len(hist) |-> Op(i)]])>>)
=============================================================================
