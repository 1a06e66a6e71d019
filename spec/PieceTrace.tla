---------------------------- MODULE PieceTrace -----------------------------
EXTENDS TraceBase, Piece
============================================================================
