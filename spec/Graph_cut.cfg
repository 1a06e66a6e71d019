SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  U = 100
  Focus = "walk"
  Times = {0, 35}
  Pitches = {60, 61, 62}
  Vels = {100}
  MaxNotes = 4
  MaxTracks = 1
  Kinds = {}
  Feats = {1, 2}
  Filters = {TRUE, FALSE}
  Depth = 6
  Step <- PStep
  Cmds <- PCmds
  Expect <- PExpect
  Start0 <- PStart
