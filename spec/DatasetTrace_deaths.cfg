SPECIFICATION TraceSpec
CONSTANTS
  U = 100
  Focus = "deaths"
  Step <- DStep
  Judge <- DJudge
  Start <- DStart
