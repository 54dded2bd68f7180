SPECIFICATION Spec
CONSTANTS Kind = "all"
N = 7
INVARIANTS Commute LastWins Conjunction Propositional DeMorgan Reducing Shrinks Outcome Generated Emit
CHECK_DEADLOCK FALSE
