SPECIFICATION TraceSpec
CONSTANTS
  Start <- EStart
  Step <- EStep
  Judge <- EJudge
CHECK_DEADLOCK FALSE
