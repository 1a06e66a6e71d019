------------------------------ MODULE TreeTrace ------------------------------
EXTENDS TraceBase, Tree
=============================================================================
