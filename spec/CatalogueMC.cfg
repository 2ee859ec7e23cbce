SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Numbers Export
