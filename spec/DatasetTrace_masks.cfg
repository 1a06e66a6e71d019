SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "masks"
  Step <- DStep
  Judge <- DJudge
  Start <- DStart
