CONSTANTS N = 2
KP = 5
KC = 4
SPECIFICATION Spec
INVARIANTS Linearizable SpecBounded
CHECK_DEADLOCK FALSE
