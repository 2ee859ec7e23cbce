SPECIFICATION Spec
INVARIANTS NoDescriptor MapOnlyWhileNeeded FailureKeepsNothing Export
CHECK_DEADLOCK FALSE
