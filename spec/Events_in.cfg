SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Sound
CONSTANTS
  Depth = 3
  MaxLen = 2
  Kinds = {"in"}
  Rich = FALSE
  Step <- EStep
  Cmds <- GCmds
  Expect <- EExpect
  Start0 <- EStart0
