SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "maps"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
