SPECIFICATION TraceSpec
CONSTANTS
  Focus = "cc"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
