CONSTANTS
  Proto = "count"
  REL = TRUE
  ACQ = TRUE
  CNT_A = FALSE
  CNT_R = TRUE
  FENCE = TRUE
SPECIFICATION Spec
INVARIANT NoRace
CHECK_DEADLOCK FALSE
