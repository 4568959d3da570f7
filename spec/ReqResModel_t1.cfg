CONSTANTS Chunks = 6
 Cap = 1
 CapC = 1
 Blk = FALSE
 MaxClients = 2
 Sends = 3
 Discs = 2
 Toggles = 2
 Crash = FALSE
SPECIFICATION Spec
INVARIANTS InvSound InvAgree InvAnswers InvNothingLost
CHECK_DEADLOCK FALSE
