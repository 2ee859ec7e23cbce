SPECIFICATION Spec
CONSTANTS MaxRows = 9 Shapes = {0, 1, 2, 3, 4, 5}
INVARIANTS Loops NoneHidden Complete Export
