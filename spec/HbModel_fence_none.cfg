CONSTANTS
  Proto = "fence"
  REL = TRUE
  ACQ = TRUE
  CNT_A = TRUE
  CNT_R = TRUE
  FENCE = FALSE
SPECIFICATION Spec
INVARIANT NoRace
CHECK_DEADLOCK FALSE
