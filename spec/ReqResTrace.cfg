CONSTANTS
  InitSet <- RR_Init
  Post <- RR_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
