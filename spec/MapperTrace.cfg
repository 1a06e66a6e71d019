SPECIFICATION TraceSpec
CONSTANTS
  Step <- MStep
  Judge <- MJudge
  Start <- MStart
