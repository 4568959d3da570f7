CONSTANTS
  Proto = "lock"
  REL = TRUE
  ACQ = TRUE
  CNT_A = TRUE
  CNT_R = TRUE
  FENCE = TRUE
SPECIFICATION Spec
INVARIANT NoRace
CHECK_DEADLOCK FALSE
