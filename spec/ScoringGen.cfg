SPECIFICATION Spec
INVARIANT Sound
CONSTANTS
  Nodes = 2
  Classes = 2
  Splits = 2
