SPECIFICATION Spec
INVARIANT Sound
CONSTANTS
  MaxN = 3
  MaxE = 3
  Depth = 2
  Rates = {0, 1, 2, 4}
