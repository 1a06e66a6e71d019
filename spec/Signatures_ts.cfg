SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Times = {0, 64, 65, 200}
  MaxLen = 4
  Kinds = {"ts"}
  Depth = 5
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
