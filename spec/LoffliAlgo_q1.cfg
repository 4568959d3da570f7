CONSTANTS N = 2
NT = 2
K = 4
ABA = TRUE
CRASH = TRUE
SPECIFICATION Spec
INVARIANTS Linearizable Exclusive
CHECK_DEADLOCK FALSE
