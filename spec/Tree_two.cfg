SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Sound
CONSTANTS
  Depth = 3
  Points = {0, 1, 2}
  Data = {0}
  MaxSize = 3
  Both = TRUE
  Step <- TStep
  Cmds <- GCmds
  Expect <- TExpect
  Start0 <- TStart0
