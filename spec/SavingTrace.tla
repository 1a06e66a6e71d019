----------------------------- MODULE SavingTrace -----------------------------
EXTENDS TraceBase, Saving
==============================================================================
