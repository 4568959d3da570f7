CONSTANTS
  ObjInit <- DM_Init
  L0 <- DM_L0
  Step <- DMM_Step
  Observe <- DM_Observe
  Menu <- DMM_Reg5
  Cfg <- DMM_CfgR
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS Limits Fresh Published Reserved OneServer Counts Capped Answered
CHECK_DEADLOCK FALSE
