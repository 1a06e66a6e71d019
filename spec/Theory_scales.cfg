SPECIFICATION Spec
CONSTANTS
  Area = "scales"
