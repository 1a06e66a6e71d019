-------------------------- MODULE TransformsTrace ---------------------------
EXTENDS TraceBase, Transforms
=============================================================================
