----------------------------- MODULE EventsTrace -----------------------------
EXTENDS TraceBase, Events
=============================================================================
