SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Focus = "tempo"
  Kinds = {"tempo", "on", "tick", "end"}
  MaxTick = 4
  MaxTracks = 2
  ChannelSet = {0}
  PitchSet = {60}
  Depth = 7
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
