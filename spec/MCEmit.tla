------------------------------- MODULE MCEmit -------------------------------
(* The generator as a writer of pieces against a faulty writer: for every    *)
(* way to cut the text into pieces and every fault, "return an error as soon *)
(* as a piece was not taken whole" is what gives complete-or-error.  And all *)
(* sequences of up to N requests over three validators.                      *)
EXTENDS Emit, Json, SequencesExt
CONSTANTS N, L, Named
Plans == {"none", "err", "late", "short"}
VARIABLES s, plan, st, h
vars == <<s, plan, st, h>>
NamesOf3 == CASE Named = "all" -> <<<<65>>, <<66>>, <<67>>>>
              [] Named = "some" -> <<<<65>>, <<>>, <<67>>>>
              [] OTHER -> <<<<>>, <<>>, <<>>>>
Orders == {o \in UNION {[1..n -> 1..3] : n \in 1..3} : \A i, j \in 1..Len(o) : i # j => o[i] # o[j]}
Init == /\ s \in [todo : {L}, done : {0}, left : 0..(L + 1), failed : {FALSE}]
        /\ plan \in Plans
        /\ st = "run"
        /\ h = <<>>
Write == /\ st = "run" /\ s.todo > 0
         /\ \E p \in 1..(IF s.todo < MaxPiece THEN s.todo ELSE MaxPiece) :
              s' = Piece(s, plan, p)
         /\ st' = IF s'.failed THEN "error" ELSE IF s'.todo = 0 THEN "ok" ELSE "run"
         /\ UNCHANGED <<plan, h>>
Next == Write
Spec == Init /\ [][Next]_vars
Contract == st # "run" => ReturnOk(st = "ok", s.failed, s.done = L)

\* request histories, separately
HInit == h = <<>> /\ s = [todo |-> 0, done |-> 0, left |-> 0, failed |-> FALSE] /\ plan = "none" /\ st = "run"
HNext == Len(h) < N /\ \E o \in Orders : h' = Append(h, o) /\ UNCHANGED <<s, plan, st>>
HSpec == HInit /\ [][HNext]_vars
\* the laws of keys: named validators in any order are one request; variables are distinct
KeyLaw == \A o \in Orders : \A p \in Orders :
            (Named = "all" /\ {o[i] : i \in 1..Len(o)} = {p[i] : i \in 1..Len(p)}) => Key(o, NamesOf3) = Key(p, NamesOf3)
VarLaw == \A o \in Orders : Cardinality(Vars(o, NamesOf3)) = Len(o)
HEmit == Len(h) = N => PrintT(<<"CASE", ToJson([names |-> NamesOf3, orders |-> h])>>)
=============================================================================
