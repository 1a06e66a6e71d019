SPECIFICATION TraceSpec
CONSTANTS
  Step <- BStep
  Judge <- BJudge
  Start <- BStart
