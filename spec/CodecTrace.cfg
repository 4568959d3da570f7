CONSTANTS
  ObjInit <- CO_Init
  L0 <- CO_L0
  Step <- CO_Step
  Observe <- CO_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
