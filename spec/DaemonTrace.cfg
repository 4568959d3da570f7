CONSTANTS
  ObjInit <- DM_Init
  L0 <- DM_L0
  Step <- DM_Step
  Observe <- DM_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
