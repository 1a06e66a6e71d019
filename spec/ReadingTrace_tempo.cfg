SPECIFICATION TraceSpec
CONSTANTS
  Focus = "tempo"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
