SPECIFICATION Spec
INVARIANT Sound
CONSTANTS
  MaxNotes = 4
  Times = {0, 10, 15, 50, 51}
  Vels = {0, 1, 20, 33, 64, 90, 127}
  Loud = {80}
