CONSTANTS
  ObjInit <- SQ_Init
  L0 <- SQ_L0
  Step <- SQ_Step
  Observe <- SQ_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
