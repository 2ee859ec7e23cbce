SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Export = TRUE
INVARIANT TextGoesHome
INVARIANT Exported
PROPERTY OnlyOwnCell
CHECK_DEADLOCK FALSE
