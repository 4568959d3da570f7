CONSTANTS
  ObjInit <- CH_Init
  L0 <- CH_L0
  Step <- CH_Step
  Observe <- CH_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
