SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Laws Rejected Independent
CONSTANTS
  Which = "edit"
  MaxLen = 3
  Depth = 3
  Step <- QStep
  Cmds <- SCmds
  Expect <- QExpect
  Start0 <- SStart0
