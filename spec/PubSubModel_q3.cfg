CONSTANTS Chunks = 6
 HCap = 1
 HReq = 1
 Cap = 1
 Wait = FALSE
 Blk = FALSE
 NPub = 2
 Sends = 2
 Takes = 1
 Disc = 1
 Toggles = 0
 Crash = TRUE
SPECIFICATION Spec
INVARIANTS InvSound InvConnected InvOrder InvNoGap InvLost InvMemory
CHECK_DEADLOCK FALSE
