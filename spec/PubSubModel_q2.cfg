CONSTANTS Chunks = 6
 HCap = 0
 HReq = 0
 Cap = 1
 Wait = TRUE
 Blk = TRUE
 NPub = 1
 Sends = 3
 Takes = 2
 Disc = 1
 Toggles = 0
 Crash = FALSE
SPECIFICATION Spec
INVARIANTS InvSound InvConnected InvOrder InvNoGap InvLost InvMemory
CHECK_DEADLOCK FALSE
