SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  U = 100
  Focus = "walk"
  Times = {0, 100}
  Pitches = {0, 61}
  Vels = {0, 20, 127}
  MaxNotes = 4
  MaxTracks = 1
  Kinds = {"vel"}
  Feats = {2}
  Filters = {FALSE}
  Depth = 6
  Step <- PStep
  Cmds <- PCmds
  Expect <- PExpect
  Start0 <- PStart
