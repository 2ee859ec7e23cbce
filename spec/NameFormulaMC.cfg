SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Few = FALSE
INVARIANTS ReadsBack NoneTooMany SameText
CHECK_DEADLOCK FALSE
