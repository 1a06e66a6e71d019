SPECIFICATION GenSpec
VIEW GenView
INVARIANT NoClobber
CONSTANTS
  Depth = 5
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
