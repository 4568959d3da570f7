CONSTANTS
  ObjInit <- CH_Init
  L0 <- CH_L0
  Step <- CH_Step
  Observe <- CH_Observe
  Menu <- CM_Menu2
  Cfg <- CM_Mq
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS ExactlyOnce InOrder Bounded NoneWaitsInVain
CHECK_DEADLOCK FALSE
