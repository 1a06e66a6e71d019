SPECIFICATION Spec
INVARIANT Sound
CONSTANTS
  MaxN = 3
  MaxE = 2
  Depth = 2
  Rates = {0, 2, 4}
