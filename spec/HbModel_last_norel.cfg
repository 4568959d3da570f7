CONSTANTS
  Proto = "last"
  REL = TRUE
  ACQ = TRUE
  CNT_A = TRUE
  CNT_R = FALSE
  FENCE = TRUE
SPECIFICATION Spec
INVARIANT NoRace
CHECK_DEADLOCK FALSE
