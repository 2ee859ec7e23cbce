SPECIFICATION Spec
CONSTANTS
 MaxLen = 3
 Export = TRUE
INVARIANT OfTheLast
INVARIANT Exported
PROPERTY Local
CHECK_DEADLOCK FALSE
