CONSTANTS Chunks = 6
 Cap = 1
 CapC = 1
 Blk = FALSE
 MaxClients = 1
 Sends = 0
 Discs = 3
 Toggles = 3
 Crash = FALSE
SPECIFICATION Spec
INVARIANTS InvSound InvAgree InvAnswers InvNothingLost
CHECK_DEADLOCK FALSE
