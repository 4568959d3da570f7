----------------------------- MODULE QueueTrace -----------------------------
EXTENDS TraceBase, Queue
=============================================================================
