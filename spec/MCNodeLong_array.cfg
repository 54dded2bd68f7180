SPECIFICATION Spec
CONSTANTS Kind = "array"
N = 7
INVARIANTS Commute LastWins Conjunction Propositional DeMorgan Reducing Shrinks Outcome Generated Emit
CHECK_DEADLOCK FALSE
