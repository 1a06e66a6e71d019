------------------------------ MODULE FilesGen ------------------------------
EXTENDS GenBase, Files
==============================================================================
