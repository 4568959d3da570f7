CONSTANTS Chunks = 6
 HCap = 1
 HReq = 1
 Cap = 2
 Wait = FALSE
 Blk = FALSE
 NPub = 1
 Sends = 3
 Takes = 3
 Disc = 1
 Toggles = 1
 Crash = FALSE
SPECIFICATION Spec
INVARIANTS InvSound InvConnected InvOrder InvNoGap InvLost InvMemory
CHECK_DEADLOCK FALSE
