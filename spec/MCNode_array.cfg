SPECIFICATION Spec
CONSTANTS Kind = "array"
N = 3
INVARIANTS Commute LastWins Conjunction Propositional DeMorgan Reducing Shrinks Outcome Generated Emit
CHECK_DEADLOCK FALSE
