SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "walk"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
