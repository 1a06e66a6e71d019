----------------------------- MODULE RollsTrace ------------------------------
EXTENDS TraceBase, Rolls
=============================================================================
