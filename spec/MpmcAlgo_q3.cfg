CONSTANTS N = 1
NT = 3
K = 1
OPS = {"push","tryPush","pop"}
FILL = 0
SPECIFICATION Spec
INVARIANTS Linearizable NoOverlap SpecBounded
CHECK_DEADLOCK FALSE
