----------------------------- MODULE ViewsTrace -----------------------------
EXTENDS TraceBase, Views
=============================================================================
