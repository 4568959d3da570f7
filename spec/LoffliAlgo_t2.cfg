CONSTANTS N = 3
NT = 3
K = 3
ABA = TRUE
CRASH = TRUE
SPECIFICATION Spec
INVARIANTS Linearizable Exclusive
CHECK_DEADLOCK FALSE
