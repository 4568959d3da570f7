CONSTANTS
  ObjInit <- CV_Init
  L0 <- CV_L0
  Step <- CV_Step
  Observe <- CV_Observe
  Menu <- CM_Menu
  Cfg <- CM_Cfg
  Mortal = {2}
SPECIFICATION M_Spec
INVARIANTS NoLostWakeup NothingInvented NothingLost WaitReports
CHECK_DEADLOCK FALSE
