SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Focus = "notes"
  Kinds = {"on", "off"}
  MaxTick = 3
  MaxTracks = 1
  ChannelSet = {0, 1}
  PitchSet = {60, 64}
  Depth = 5
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
