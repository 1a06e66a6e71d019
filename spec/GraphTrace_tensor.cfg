SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "tensor"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
