---------------------------- MODULE TrainingTrace ----------------------------
EXTENDS TraceBase, Training
=============================================================================
