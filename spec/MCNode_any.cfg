SPECIFICATION Spec
CONSTANTS Kind = "any"
N = 3
INVARIANTS Commute LastWins Conjunction Propositional DeMorgan Reducing Shrinks Outcome Generated Emit
CHECK_DEADLOCK FALSE
