SPECIFICATION Spec
INVARIANT Disjoint
INVARIANT Inside
INVARIANT OneBitOneAttribute
INVARIANT Exported
CHECK_DEADLOCK FALSE
