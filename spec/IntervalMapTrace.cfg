SPECIFICATION TraceSpec
CONSTANTS
  Less <- PairLess
  Step <- SStep
  Judge <- SJudge
  Start <- SStart
