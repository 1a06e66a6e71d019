SPECIFICATION TraceSpec
CONSTANTS
  Less <- IntLess
  Step <- SStep
  Judge <- SJudge
  Start <- SStart
