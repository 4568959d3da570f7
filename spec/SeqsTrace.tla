---------------------------- MODULE SeqsTrace ----------------------------
EXTENDS TraceBase, Seqs
=============================================================================
