SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Depth = 4
  Start0 <- VStart0
  Cmds <- VCmds
  Step <- VStep
  Expect <- VExpect
  Times = {0, 16, 40}
  Lens = {0, 24}
  Pitches = {60, 62, 72}
  Insts = 2
  Pedals = {0, 100}
