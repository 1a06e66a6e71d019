SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Laws Rejected Independent
CONSTANTS
  Which = "copy"
  MaxLen = 3
  Depth = 6
  Step <- QStep
  Cmds <- SCmds
  Expect <- QExpect
  Start0 <- SStart0
