CONSTANTS
  ObjInit <- WS_Init
  L0 <- WS_L0
  Step <- WS_Step
  Observe <- WS_Observe
  Menu <- WM_Menu2
  Cfg <- WM_Cfg
  Mortal = {}
SPECIFICATION M_Spec
INVARIANTS NoOversleeping OnlyAttached NotMoreThanOccurred
CHECK_DEADLOCK FALSE
