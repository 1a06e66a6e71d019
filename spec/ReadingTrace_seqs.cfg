SPECIFICATION TraceSpec
CONSTANTS
  Focus = "seqs"
  Step <- GStep
  Judge <- GJudge
  Start <- GStart
