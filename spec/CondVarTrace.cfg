CONSTANTS
  ObjInit <- CV_Init
  L0 <- CV_L0
  Step <- CV_Step
  Observe <- CV_Observe
  InitSet <- L_Init
  Post <- L_Post
SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
