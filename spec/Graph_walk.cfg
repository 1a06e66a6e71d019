SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  U = 100
  Focus = "walk"
  Times = {0, 25, 60, 165}
  Pitches = {60, 61}
  Vels = {100}
  MaxNotes = 4
  MaxTracks = 1
  Kinds = {}
  Feats = {12}
  Filters = {FALSE}
  Depth = 6
  Step <- PStep
  Cmds <- PCmds
  Expect <- PExpect
  Start0 <- PStart
