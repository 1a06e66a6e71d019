SPECIFICATION Spec
INVARIANT Sound
CONSTANTS
  MaxNotes = 2
  Times = {0, 16, 17, 32, 48}
  Pitches = {60, 61}
  Insts = 2
