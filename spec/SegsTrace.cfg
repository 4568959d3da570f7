CONSTANTS
  ObjInit <- SG_Init
  L0 <- SG_L0
  Step <- SG_Step
  Observe <- SG_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
