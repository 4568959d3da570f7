---------------------------- MODULE WaitSetTrace ----------------------------
EXTENDS TraceBase, WaitSet
=============================================================================
