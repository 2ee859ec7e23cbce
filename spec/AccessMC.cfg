SPECIFICATION Spec
CONSTANT N = 4  K = 6
INVARIANTS Inside Split Both Neg Export
