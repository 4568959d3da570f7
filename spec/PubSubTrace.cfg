CONSTANTS
  InitSet <- PS_Init
  Post <- PS_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
