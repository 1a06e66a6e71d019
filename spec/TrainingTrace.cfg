SPECIFICATION TraceSpec
CONSTANTS
  Step <- TStep
  Judge <- TJudge
  Start <- TStart
