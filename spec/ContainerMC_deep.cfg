SPECIFICATION Spec
CONSTANTS
 NData = 4
 Starts = {2, 4, 0}
 Sizes = {1024, 2000}
 Mini = FALSE
 Export = TRUE
INVARIANT Agree
INVARIANT Exact
INVARIANT Bounded
INVARIANT Exported
PROPERTY Terminates
CHECK_DEADLOCK FALSE
