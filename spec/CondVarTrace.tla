---------------------------- MODULE CondVarTrace ----------------------------
EXTENDS TraceBase, CondVar
=============================================================================
