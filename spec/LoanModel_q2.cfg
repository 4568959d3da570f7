CONSTANTS
  ObjInit <- LO_Init
  L0 <- LO_L0
  Step <- LM_Step
  Observe <- LO_Observe
  Menu <- LM_Port3
  Cfg <- LM_CfgP
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS Counted AllCounted Exclusive Within Answered
CHECK_DEADLOCK FALSE
