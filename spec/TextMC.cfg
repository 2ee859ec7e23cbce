SPECIFICATION Spec
CONSTANTS

 MaxBreaks = 3
 Export = TRUE
INVARIANT Decoded
INVARIANT Exported
CHECK_DEADLOCK FALSE
