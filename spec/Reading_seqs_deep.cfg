SPECIFICATION GenSpec
VIEW GenView
INVARIANT Laws
CONSTANTS
  Focus = "seqs"
  Kinds = {"on", "off", "prog", "name", "end"}
  MaxTick = 2
  MaxTracks = 2
  ChannelSet = {0, 9}
  PitchSet = {60}
  Depth = 6
  Step <- GStep
  Cmds <- GCmds
  Expect <- GExpect
  Start0 <- GStart0
