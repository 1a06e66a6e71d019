SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "labels"
  Step <- DStep
  Judge <- DJudge
  Start <- DStart
