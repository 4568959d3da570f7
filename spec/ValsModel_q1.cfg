CONSTANTS
  ObjInit <- VL_Init
  L0 <- VL_L0
  Step <- VL_Step
  Observe <- VL_Observe
  Menu <- VM_Menu4
  Cfg <- VM_Cfg
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS Once Answered
CHECK_DEADLOCK FALSE
