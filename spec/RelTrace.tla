---------------------------- MODULE RelTrace ----------------------------
EXTENDS TraceBase, Rel
=============================================================================
