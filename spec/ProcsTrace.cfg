CONSTANTS
  ObjInit <- PR_Init
  L0 <- PR_L0
  Step <- PR_Step
  Observe <- PR_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
