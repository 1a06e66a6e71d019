SPECIFICATION Spec
INVARIANT Sound
CONSTANTS
  Nodes = 3
  MaxEdges = 3
  Weights = {1, 2}
