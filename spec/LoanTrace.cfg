CONSTANTS
  ObjInit <- LO_Init
  L0 <- LO_L0
  Step <- LO_Step
  Observe <- LO_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
