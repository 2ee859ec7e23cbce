SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS OrderAndStyleFree Export
CHECK_DEADLOCK FALSE
