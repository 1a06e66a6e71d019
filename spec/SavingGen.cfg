SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Focus = "all"
  MaxNotes = 2
  MaxSeqs = 2
  MaxCtl = 1
  Starts = {0, 1}
  Ends = {1, 2}
  PitchSet = {60, 61}
  Depth = 7
  Step <- WStep
  Cmds <- WCmdsOk
  Expect <- WExpect
  Start0 <- WStart0
