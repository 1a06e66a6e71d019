SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Laws Rejected Independent
CONSTANTS
  Which = "copy"
  MaxLen = 2
  Depth = 5
  Step <- QStep
  Cmds <- SCmds
  Expect <- QExpect
  Start0 <- SStart0
