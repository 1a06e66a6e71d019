SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Kept Rejected
CONSTANTS
  Tracks = {0, 3}
  MaxNotes = 2
  WithQuant = FALSE
  Depth = 3
  Step <- PStep
  Cmds <- PCmds
  Expect <- PExpect
  Start0 <- PEmpty
