CONSTANTS
  Proto = "last"
  REL = TRUE
  ACQ = FALSE
  CNT_A = TRUE
  CNT_R = TRUE
  FENCE = TRUE
SPECIFICATION Spec
INVARIANT NoRace
CHECK_DEADLOCK FALSE
