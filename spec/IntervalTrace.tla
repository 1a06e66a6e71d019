--------------------------- MODULE IntervalTrace ---------------------------
EXTENDS TraceBase, Interval
============================================================================
