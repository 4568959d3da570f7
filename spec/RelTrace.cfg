CONSTANTS
  ObjInit <- RP_Init
  L0 <- RP_L0
  Step <- RP_Step
  Observe <- RP_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
