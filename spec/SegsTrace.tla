---------------------------- MODULE SegsTrace ----------------------------
EXTENDS TraceBase, Segs
=============================================================================
