SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
 Export = TRUE
INVARIANT OwnText
INVARIANT Exported
PROPERTY NotesFrozen
CHECK_DEADLOCK FALSE
