SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Times = {0, 64, 65, 200}
  MaxLen = 5
  Kinds = {"ks"}
  Depth = 6
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
