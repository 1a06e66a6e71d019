SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Focus = "cc"
  Kinds = {"on", "cc", "pb", "prog"}
  MaxTick = 2
  MaxTracks = 1
  ChannelSet = {0}
  PitchSet = {60}
  Depth = 6
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
