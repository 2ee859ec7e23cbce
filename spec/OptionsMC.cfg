SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Isolated Export
