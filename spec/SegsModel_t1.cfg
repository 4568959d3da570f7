CONSTANTS
  ObjInit <- SGM_Init
  L0 <- SG_L0
  Step <- SGM_Step
  Observe <- SG_Observe
  Menu <- SGM_Menu
  Cfg <- SGM_Cfg
  Mortal = {}
  N = 3
SPECIFICATION M_Spec
INVARIANTS Entitled OneWriter Same Ordered Answered
CHECK_DEADLOCK FALSE
