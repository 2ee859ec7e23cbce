SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Export = TRUE
INVARIANT OfTheLast
INVARIANT Exported
PROPERTY Local
CHECK_DEADLOCK FALSE
