SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Focus = "notes"
  Kinds = {"on", "off"}
  MaxTick = 4
  MaxTracks = 1
  ChannelSet = {0, 1}
  PitchSet = {60, 64}
  Depth = 6
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
