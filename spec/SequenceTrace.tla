--------------------------- MODULE SequenceTrace ---------------------------
EXTENDS TraceBase, Sequence
============================================================================
