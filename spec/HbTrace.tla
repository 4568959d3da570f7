---------------------------- MODULE HbTrace ----------------------------
EXTENDS TraceBase, Hb
=============================================================================
