SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Focus = "tempo"
  Kinds = {"tempo", "on", "tick"}
  MaxTick = 3
  MaxTracks = 1
  ChannelSet = {0}
  PitchSet = {60}
  Depth = 6
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
