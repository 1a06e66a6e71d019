SPECIFICATION TraceSpec
CONSTANTS
  Step <- VStep
  Judge <- VJudge
  Start <- VStart
