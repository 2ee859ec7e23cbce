SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Total Sound Local Export
