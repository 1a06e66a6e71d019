SPECIFICATION GenSpec
VIEW GenView
INVARIANTS SInvSafe SInvStep
CONSTANTS
  Depth = 4
  Ks <- IvKeys
  Vs = {1}
  Less <- PairLess
  Step <- SStep
  Cmds <- ICmds
  Expect <- SExpect
  Start0 <- SStart
