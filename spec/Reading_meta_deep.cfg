SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Focus = "all"
  Kinds = {"on", "ts", "ks", "tempo", "end"}
  MaxTick = 2
  MaxTracks = 2
  ChannelSet = {0}
  PitchSet = {60}
  Depth = 6
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
