CONSTANTS
  InitSet <- Q_Init
  Post <- Q_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
