SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Few = TRUE
INVARIANTS ReadsBack NoneTooMany SameText
CHECK_DEADLOCK FALSE
