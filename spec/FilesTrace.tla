----------------------------- MODULE FilesTrace -----------------------------
EXTENDS TraceBase, Files
==============================================================================
