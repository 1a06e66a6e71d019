SPECIFICATION TraceSpec
CONSTANTS
  Step <- RStep
  Judge <- RJudge
  Start <- RStart
