SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Export = TRUE
INVARIANT LegalAll
INVARIANT LastCovers
INVARIANT Exported
PROPERTY TipOwner
CHECK_DEADLOCK FALSE
