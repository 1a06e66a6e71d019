SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Sound
CONSTANTS
  Depth = 1
  Points = {0, 1, 2, 4}
  Data <- NoneOrTwo
  MaxSize = 2
  Both = FALSE
  Step <- TStep
  Cmds <- PairCmds
  Expect <- TExpect
  Start0 <- TStart0
