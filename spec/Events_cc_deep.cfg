SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Sound
CONSTANTS
  Depth = 3
  MaxLen = 3
  Kinds = {"cc", "base"}
  Rich = TRUE
  Step <- EStep
  Cmds <- GCmds
  Expect <- EExpect
  Start0 <- EStart0
