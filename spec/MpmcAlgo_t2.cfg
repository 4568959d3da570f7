CONSTANTS N = 2
NT = 3
K = 1
OPS = {"push","tryPush","pop"}
FILL = 2
SPECIFICATION Spec
INVARIANTS Linearizable NoOverlap SpecBounded
CHECK_DEADLOCK FALSE
