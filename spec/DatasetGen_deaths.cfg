SPECIFICATION Spec
VIEW View
INVARIANT OnlyProcessedSurvive
CONSTANTS
  Depth = 4
  Bad = {}
  Deaths = {"copy", "first", "second", "third"}
