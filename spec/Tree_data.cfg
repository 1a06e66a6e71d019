SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Sound
CONSTANTS
  Depth = 3
  Points = {0, 1, 3}
  Data <- NoneOrTwo
  MaxSize = 3
  Both = FALSE
  Step <- TStep
  Cmds <- GCmds
  Expect <- TExpect
  Start0 <- TStart0
