CONSTANTS
  ObjInit <- WS_Init
  L0 <- WS_L0
  Step <- WS_Step
  Observe <- WS_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
