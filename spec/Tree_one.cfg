SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Sound
CONSTANTS
  Depth = 4
  Points = {0, 1, 2, 4}
  Data = {0}
  MaxSize = 4
  Both = FALSE
  Step <- TStep
  Cmds <- GCmds
  Expect <- TExpect
  Start0 <- TStart0
