SPECIFICATION GenSpec
VIEW GenView
INVARIANTS AlwaysSound QuantizeLaws
CONSTANTS
  Depth = 2
  Which = "quant"
  Times <- TimesDeep
  Step <- NStep
  Cmds <- NoteCmds
  Expect <- NExpect
  Start0 <- GStart0
