SPECIFICATION Spec
CONSTANTS

 MaxBreaks = 5
 Export = TRUE
INVARIANT Decoded
INVARIANT Exported
CHECK_DEADLOCK FALSE
