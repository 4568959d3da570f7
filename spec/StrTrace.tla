---------------------------- MODULE StrTrace ----------------------------
EXTENDS TraceBase, Str
=============================================================================
