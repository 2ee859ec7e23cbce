SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS SameFromBytes Covers EveryRecord Export
CHECK_DEADLOCK FALSE
