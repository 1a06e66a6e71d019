SPECIFICATION TraceSpec
CONSTANTS
  Step <- NStep
  Judge <- NJudge
  Start <- NStart
