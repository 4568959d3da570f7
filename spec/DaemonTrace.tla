---------------------------- MODULE DaemonTrace ----------------------------
EXTENDS TraceBase, Daemon
=============================================================================
