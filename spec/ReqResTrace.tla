---------------------------- MODULE ReqResTrace ----------------------------
EXTENDS TraceBase, ReqRes
=============================================================================
