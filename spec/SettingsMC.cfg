SPECIFICATION Spec
CONSTANTS Versions = {20, 21, 30, 40, 45, 50, 70, 80}
 Again = TRUE
INVARIANTS Faithful DatesReadBack Export
