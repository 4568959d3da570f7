CONSTANTS
  ObjInit <- LK_Init
  L0 <- LK_L0
  Step <- LK_Step
  Observe <- LK_Observe
  Menu <- LM_Sem
  Cfg <- LM_SemCfg
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS OneOwner ExactCount NoneWaitsInVain
CHECK_DEADLOCK FALSE
