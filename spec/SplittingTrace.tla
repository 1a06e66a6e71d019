--------------------------- MODULE SplittingTrace ---------------------------
EXTENDS TraceBase, Splitting
=============================================================================
