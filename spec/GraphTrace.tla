----------------------------- MODULE GraphTrace -----------------------------
EXTENDS TraceBase, Graph
=============================================================================
