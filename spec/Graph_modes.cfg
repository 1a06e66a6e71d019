SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  U = 100
  Focus = "walk"
  Times = {0, 35}
  Pitches = {60, 61}
  Vels = {100}
  MaxNotes = 3
  MaxTracks = 3
  Kinds = {"drum", "merged"}
  Feats = {12}
  Filters = {FALSE}
  Depth = 8
  Step <- PStep
  Cmds <- PCmds
  Expect <- PExpect
  Start0 <- PStart
