SPECIFICATION GenSpec
VIEW GenView
INVARIANTS AlwaysSound
CONSTANTS
  Depth = 2
  Which = "valid"
  Times <- TimesQuick
  Step <- NStep
  Cmds <- NoteCmds
  Expect <- NExpect
  Start0 <- GStart0
