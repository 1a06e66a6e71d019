----------------------------- MODULE TracksTrace -----------------------------
EXTENDS TraceBase, Tracks
==============================================================================
