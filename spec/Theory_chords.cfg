SPECIFICATION Spec
CONSTANTS
  Area = "chords"
