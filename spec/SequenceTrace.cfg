SPECIFICATION TraceSpec
CONSTANTS
  Step <- QStep
  Judge <- QJudge
  Start <- QStart
