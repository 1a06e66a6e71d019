SPECIFICATION TraceSpec
CONSTANTS
  Step <- CStep
  Judge <- CJudge
  Start <- CStart
