CONSTANTS N = 3
KP = 9
KC = 7
SPECIFICATION Spec
INVARIANTS Linearizable SpecBounded
CHECK_DEADLOCK FALSE
