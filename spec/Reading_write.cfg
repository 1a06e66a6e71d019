SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Focus = "all"
  Kinds = {"on", "tempo", "cc", "prog", "rewrite"}
  MaxTick = 2
  MaxTracks = 1
  ChannelSet = {9}
  PitchSet = {60}
  Depth = 6
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
