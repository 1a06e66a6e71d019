--------------------------- MODULE RetimingTrace ----------------------------
EXTENDS TraceBase, Retiming
=============================================================================
