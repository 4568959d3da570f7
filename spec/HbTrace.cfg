CONSTANTS
  InitSet <- HB_InitSet
  Post <- HB_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
