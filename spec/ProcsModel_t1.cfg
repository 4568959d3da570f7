CONSTANTS
  ObjInit <- PR_Init
  L0 <- PR_L0
  Step <- PRM_Step
  Observe <- PR_Observe
  Menu <- PRM_Menu5
  Cfg <- PRM_Cfg
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS Limits Owned OneServer Kept NotKept Fit Room Answered Used
CHECK_DEADLOCK FALSE
