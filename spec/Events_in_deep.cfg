SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Sound
CONSTANTS
  Depth = 3
  MaxLen = 2
  Kinds = {"in"}
  Rich = TRUE
  Step <- EStep
  Cmds <- GCmds
  Expect <- EExpect
  Start0 <- EStart0
