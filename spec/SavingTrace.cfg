SPECIFICATION TraceSpec
CONSTANTS
  Focus = "all"
  Step <- WStep
  Judge <- WJudge
  Start <- WStart
