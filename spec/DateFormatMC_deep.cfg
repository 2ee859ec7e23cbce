SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Export = TRUE
INVARIANT Stepwise
INVARIANT DeadTextDead
INVARIANT Exported
CHECK_DEADLOCK FALSE
