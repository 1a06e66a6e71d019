SPECIFICATION GenSpec
VIEW GenView
INVARIANTS SInvSafe SInvStep
CONSTANTS
  Depth = 5
  Ks <- IntKeys
  Vs = {1, 2}
  Less <- IntLess
  Step <- SStep
  Cmds <- SCmds
  Expect <- SExpect
  Start0 <- SStart
