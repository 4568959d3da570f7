CONSTANTS
  ObjInit <- CO_Init
  L0 <- CO_L0
  Step <- CO_Step
  Observe <- CO_Observe
  Menu <- CM_Menu3
  Cfg <- CM_Cfg
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS Sound RoundTrip Answered
CHECK_DEADLOCK FALSE
