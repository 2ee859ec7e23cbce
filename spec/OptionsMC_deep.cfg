SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Isolated Export
