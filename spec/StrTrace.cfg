CONSTANTS
  ObjInit <- ST_Init
  L0 <- ST_L0
  Step <- ST_Step
  Observe <- ST_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
