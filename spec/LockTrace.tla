---------------------------- MODULE LockTrace ----------------------------
EXTENDS TraceBase, Lock
=============================================================================
