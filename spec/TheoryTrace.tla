---------------------------- MODULE TheoryTrace -----------------------------
EXTENDS TraceBase, Theory
=============================================================================
