SPECIFICATION Spec
INVARIANT Sound
CONSTANTS
  MaxNotes = 3
  Times = {0, 10, 50, 51}
  Vels = {1, 20, 64, 127}
  Loud = {0, 80}
