CONSTANTS
  ObjInit <- LK_Init
  L0 <- LK_L0
  Step <- LK_Step
  Observe <- LK_Observe
  Menu <- LM_File
  Cfg <- LM_FileCfg
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS OneOwner ExactCount NoneWaitsInVain
CHECK_DEADLOCK FALSE
