SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Focus = "all"
  Kinds = {"on", "ts", "ks", "tempo"}
  MaxTick = 2
  MaxTracks = 1
  ChannelSet = {0}
  PitchSet = {60}
  Depth = 4
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
