SPECIFICATION TraceSpec
CONSTANTS
  Step <- IStep
  Judge <- IJudge
  Start <- IStart
