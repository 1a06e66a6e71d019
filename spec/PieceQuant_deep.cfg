SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Kept Rejected
CONSTANTS
  Tracks = {0, 1, 3}
  MaxNotes = 3
  WithQuant = TRUE
  Depth = 6
  Step <- PStep
  Cmds <- PCmds
  Expect <- PExpect
  Start0 <- PEmpty
