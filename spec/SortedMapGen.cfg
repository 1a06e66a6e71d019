SPECIFICATION GenSpec
VIEW GenView
INVARIANTS SInvSafe SInvStep
CONSTANTS
  Depth = 4
  Ks <- IntKeys
  Vs = {1}
  Less <- IntLess
  Step <- SStep
  Cmds <- SCmds
  Expect <- SExpect
  Start0 <- SStart
