---------------------------- MODULE ScoringTrace -----------------------------
EXTENDS TraceBase, Scoring
==============================================================================
