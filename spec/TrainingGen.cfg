SPECIFICATION Spec
VIEW View
CONSTRAINT Small
INVARIANT Laws
CONSTANTS
  Depth = 6
  Epochs = {2, 10}
  Types = {"GCN", "GCN3"}
  MaxCk = 2
