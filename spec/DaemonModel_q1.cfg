CONSTANTS
  ObjInit <- DM_Init
  L0 <- DM_L0
  Step <- DMM_Step
  Observe <- DM_Observe
  Menu <- DMM_Menu1
  Cfg <- DMM_Cfg
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS Limits Fresh Published Reserved OneServer Counts Capped Answered
CHECK_DEADLOCK FALSE
