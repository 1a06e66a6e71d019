SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Kept Rejected
CONSTANTS
  Tracks = {0, 3, 5}
  MaxNotes = 3
  WithQuant = FALSE
  Depth = 4
  Step <- PStep
  Cmds <- PCmds
  Expect <- PExpect
  Start0 <- PEmpty
