---------------------------- MODULE DatasetTrace ----------------------------
EXTENDS TraceBase, Dataset
=============================================================================
