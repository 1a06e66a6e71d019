SPECIFICATION Spec
INVARIANT Sound
CONSTANTS
  Nodes = 3
  Classes = 2
  Splits = 2
