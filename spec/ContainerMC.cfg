SPECIFICATION Spec
CONSTANTS
 NData = 3
 Starts = {2, 3, 1}
 Sizes = {512, 1000, 1536}
 Mini = FALSE
 Export = TRUE
INVARIANT Agree
INVARIANT Exact
INVARIANT Bounded
INVARIANT Exported
PROPERTY Terminates
CHECK_DEADLOCK FALSE
