SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Steps = {0, 42}
  MaxTick = 96
  Sigs = {304, 608}
  Tempos = {240, 360}
  Depth = 5
  Step <- TStep
  Cmds <- TCmds
  Expect <- TExpect
  Start0 <- TStart0
