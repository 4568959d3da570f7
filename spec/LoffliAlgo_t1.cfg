CONSTANTS N = 3
NT = 2
K = 5
ABA = TRUE
CRASH = TRUE
SPECIFICATION Spec
INVARIANTS Linearizable Exclusive
CHECK_DEADLOCK FALSE
