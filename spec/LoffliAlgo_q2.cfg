CONSTANTS N = 2
NT = 3
K = 2
ABA = TRUE
CRASH = TRUE
SPECIFICATION Spec
INVARIANTS Linearizable Exclusive
CHECK_DEADLOCK FALSE
