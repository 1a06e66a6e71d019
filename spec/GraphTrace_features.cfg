SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "features"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
