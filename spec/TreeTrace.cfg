SPECIFICATION TraceSpec
CONSTANTS
  Start <- TStart
  Step <- TStep
  Judge <- TJudge
CHECK_DEADLOCK FALSE
