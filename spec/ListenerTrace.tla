---------------------------- MODULE ListenerTrace ----------------------------
EXTENDS TraceBase, Listener
=============================================================================
