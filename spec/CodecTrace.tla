---------------------------- MODULE CodecTrace ----------------------------
EXTENDS TraceBase, Codec
=============================================================================
