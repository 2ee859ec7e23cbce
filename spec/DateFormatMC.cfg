SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Export = TRUE
INVARIANT Stepwise
INVARIANT DeadTextDead
INVARIANT Exported
CHECK_DEADLOCK FALSE
