SPECIFICATION Spec
CONSTANTS
 NData = 3
 Starts <- MiniStarts
 Sizes = {0, 1, 64, 100, 192}
 Mini = TRUE
 Export = TRUE
INVARIANT Agree
INVARIANT Exact
INVARIANT Bounded
INVARIANT Exported
PROPERTY Terminates
CHECK_DEADLOCK FALSE
