SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Sound
CONSTANTS
  Depth = 5
  Points = {0, 1, 2, 4}
  Data = {0}
  MaxSize = 5
  Both = FALSE
  Step <- TStep
  Cmds <- GCmds
  Expect <- TExpect
  Start0 <- TStart0
