SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Injective NeverRenumber OnlyTarget Idempotent
CONSTANTS
  Hs = {11, 12, 13}
  Depth = 6
  Step <- MStep
  Cmds <- MCmds
  Expect <- MExpect
  Start0 <- MStart0
