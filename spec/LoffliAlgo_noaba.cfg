CONSTANTS N = 2
NT = 2
K = 4
ABA = FALSE
CRASH = FALSE
SPECIFICATION Spec
INVARIANTS Linearizable Exclusive
CHECK_DEADLOCK FALSE
