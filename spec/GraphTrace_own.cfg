SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "modes"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
