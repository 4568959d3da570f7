---------------------------- MODULE ChannelTrace ----------------------------
EXTENDS TraceBase, Channel
=============================================================================
