SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Laws Rejected Independent
CONSTANTS
  Which = "edit"
  MaxLen = 4
  Depth = 4
  Step <- QStep
  Cmds <- SCmds
  Expect <- QExpect
  Start0 <- SStart0
