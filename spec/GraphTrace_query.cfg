SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "query"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
