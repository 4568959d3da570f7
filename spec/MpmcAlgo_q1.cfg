CONSTANTS N = 1
NT = 2
K = 2
OPS = {"push","pop"}
FILL = 1
SPECIFICATION Spec
INVARIANTS Linearizable NoOverlap SpecBounded
CHECK_DEADLOCK FALSE
