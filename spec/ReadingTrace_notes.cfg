SPECIFICATION TraceSpec
CONSTANTS
  Focus = "notes"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
