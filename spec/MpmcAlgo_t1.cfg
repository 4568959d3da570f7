CONSTANTS N = 2
NT = 2
K = 3
OPS = {"push","pop"}
FILL = 1
SPECIFICATION Spec
INVARIANTS Linearizable NoOverlap SpecBounded
CHECK_DEADLOCK FALSE
