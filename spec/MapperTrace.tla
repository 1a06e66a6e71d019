---------------------------- MODULE MapperTrace ----------------------------
EXTENDS TraceBase, Mapper
============================================================================
