SPECIFICATION TraceSpec
CONSTANTS
  Focus = "all"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
