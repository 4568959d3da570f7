---------------------------- MODULE LoanTrace ----------------------------
EXTENDS TraceBase, Loan
=============================================================================
