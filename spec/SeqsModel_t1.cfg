CONSTANTS
  ObjInit <- SQ_Init
  L0 <- SQ_L0
  Step <- SQ_Step
  Observe <- SQ_Observe
  Menu <- SM_Menu2
  Cfg <- SM_Cfg
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS WithinCapacity Answered
CHECK_DEADLOCK FALSE
