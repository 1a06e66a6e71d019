SPECIFICATION GenSpec
INVARIANT Laws
CONSTANTS
  N = 4
  Depth = 1
  Step <- IStep
  Cmds <- ICmds
  Expect <- IExpect
  Start0 <- IStart0
