---------------------------- MODULE ReadingTrace ----------------------------
EXTENDS TraceBase, Reading
==============================================================================
