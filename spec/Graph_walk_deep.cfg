SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  U = 100
  Focus = "walk"
  Times = {0, 25, 35, 100, 165}
  Pitches = {60, 61}
  Vels = {100}
  MaxNotes = 5
  MaxTracks = 1
  Kinds = {}
  Feats = {12}
  Filters = {FALSE}
  Depth = 7
  Step <- PStep
  Cmds <- PCmds
  Expect <- PExpect
  Start0 <- PStart
