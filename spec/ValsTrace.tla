---------------------------- MODULE ValsTrace ----------------------------
EXTENDS TraceBase, Vals
=============================================================================
