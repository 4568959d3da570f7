---------------------------- MODULE PubSubTrace ----------------------------
EXTENDS TraceBase, PubSub
=============================================================================
