SPECIFICATION Spec
CONSTANTS
  FirstYear = 1900
  LastYear = 1900
