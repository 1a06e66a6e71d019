SPECIFICATION TraceSpec
CONSTANTS
  Step <- PStep
  Judge <- PJudge
  Start <- PStart
