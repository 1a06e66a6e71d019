SPECIFICATION TraceSpec
CONSTANTS
  Step <- SStep
  Judge <- SJudge
  Start <- TStart
