SPECIFICATION CalSpec
CONSTANTS
  FirstYear = 1900
  LastYear = 9999
INVARIANTS ClosedForm InverseOk Systems TooLargeOk RoundTrip
