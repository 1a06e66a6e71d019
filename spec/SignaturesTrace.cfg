SPECIFICATION TraceSpec
CONSTANTS
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
