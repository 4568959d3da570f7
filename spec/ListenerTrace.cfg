CONSTANTS
  ObjInit <- LS_Init
  L0 <- LS_L0
  Step <- LS_Step
  Observe <- LS_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
