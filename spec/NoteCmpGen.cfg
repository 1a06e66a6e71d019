SPECIFICATION GenSpec
VIEW GenView
INVARIANTS OrderLaws
CONSTANTS
  Depth = 1
  Which = "cmp"
  Times <- TimesQuick
  Step <- NStep
  Cmds <- CmpCmds
  Expect <- NExpect
  Start0 <- GStart0
