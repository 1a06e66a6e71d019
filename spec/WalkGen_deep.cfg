SPECIFICATION Spec
INVARIANT Sound
CONSTANTS
  Nodes = 3
  MaxEdges = 4
  Weights = {1, 2, 3}
