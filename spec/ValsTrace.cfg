CONSTANTS
  ObjInit <- VL_Init
  L0 <- VL_L0
  Step <- VL_Step
  Observe <- VL_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
