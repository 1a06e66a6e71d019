SPECIFICATION GenSpec
VIEW GenView
INVARIANTS AlwaysSound
CONSTANTS
  Depth = 3
  Which = "valid"
  Times <- TimesQuick
  Step <- NStep
  Cmds <- NoteCmds
  Expect <- NExpect
  Start0 <- GStart0
