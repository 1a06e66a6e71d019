SPECIFICATION GenSpec
VIEW GenView
INVARIANTS Kept Rejected
CONSTANTS
  Tracks = {0, 3}
  MaxNotes = 3
  WithQuant = TRUE
  Depth = 5
  Step <- PStep
  Cmds <- PCmds
  Expect <- PExpect
  Start0 <- PEmpty
