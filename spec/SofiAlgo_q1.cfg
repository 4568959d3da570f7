CONSTANTS N = 1
KP = 4
KC = 4
SPECIFICATION Spec
INVARIANTS Linearizable SpecBounded
CHECK_DEADLOCK FALSE
