---------------------------- MODULE ProcsTrace ----------------------------
EXTENDS TraceBase, Procs
=============================================================================
