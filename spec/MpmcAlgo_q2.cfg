CONSTANTS N = 2
NT = 2
K = 2
OPS = {"push","tryPush","pop"}
FILL = 2
SPECIFICATION Spec
INVARIANTS Linearizable NoOverlap SpecBounded
CHECK_DEADLOCK FALSE
