SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "persist"
  Step <- DStep
  Judge <- DJudge
  Start <- DStart
