----------------------------- MODULE NoteTrace -----------------------------
EXTENDS TraceBase, NoteMachine
============================================================================
