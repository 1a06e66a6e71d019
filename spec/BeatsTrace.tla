----------------------------- MODULE BeatsTrace -----------------------------
EXTENDS TraceBase, Beats
=============================================================================
