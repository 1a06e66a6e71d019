SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "weights"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
