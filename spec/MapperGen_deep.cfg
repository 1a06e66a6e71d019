SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Injective NeverRenumber OnlyTarget Idempotent
CONSTANTS
  Hs = {11, 12, 13, 14}
  Depth = 9
  Step <- MStep
  Cmds <- MCmds
  Expect <- MExpect
  Start0 <- MStart0
