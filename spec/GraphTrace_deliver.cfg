SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "deliver"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
