CONSTANTS
  ObjInit <- LS_Init
  L0 <- LS_L0
  Step <- LS_Step
  Observe <- LS_Observe
  Menu <- LM_Menu2
  Cfg <- LM_Cfg
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS RunningIsAttached WithinCapacity PendingIsAttached
CHECK_DEADLOCK FALSE
