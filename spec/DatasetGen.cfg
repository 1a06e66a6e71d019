SPECIFICATION Spec
VIEW View
INVARIANT OnlyProcessedSurvive
CONSTANTS
  Depth = 6
  Deaths = {}
  Bad = {"ratio", "sum"}
