SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Steps = {0, 18}
  MaxTick = 72
  Sigs = {304, 608, 202}
  Tempos = {250, 700}
  Starts = {0, 18}
  Depth = 6
  Step <- BStep
  Cmds <- BCmds
  Expect <- BExpect
  Start0 <- BStart0
