CONSTANTS
  ObjInit <- RP_Init
  L0 <- RP_L0
  Step <- RP_Step
  Observe <- RP_Observe
  Menu <- RM_Menu5
  Cfg <- RM_Cfg
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS Same Answered
CHECK_DEADLOCK FALSE
