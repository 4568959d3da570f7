CONSTANTS Chunks = 6
 Cap = 1
 CapC = 1
 Blk = FALSE
 MaxClients = 2
 Sends = 2
 Discs = 1
 Toggles = 0
 Crash = TRUE
SPECIFICATION Spec
INVARIANTS InvSound InvAgree InvAnswers InvNothingLost
CHECK_DEADLOCK FALSE
