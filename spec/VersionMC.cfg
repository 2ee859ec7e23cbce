SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Total Sound Local Export
