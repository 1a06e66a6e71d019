SPECIFICATION GenSpec
VIEW GenView
INVARIANTS SInvSafe SInvStep
CONSTANTS
  Depth = 9
  Ks <- IvKeys
  Vs = {1, 2}
  Less <- PairLess
  Step <- SStep
  Cmds <- ICmds
  Expect <- SExpect
  Start0 <- SStart
