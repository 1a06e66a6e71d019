-------------------------- MODULE SignaturesTrace ---------------------------
EXTENDS TraceBase, Signatures
==============================================================================
