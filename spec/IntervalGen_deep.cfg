SPECIFICATION GenSpec
INVARIANT Laws
CONSTANTS
  N = 6
  Depth = 1
  Step <- IStep
  Cmds <- ICmds
  Expect <- IExpect
  Start0 <- IStart0
