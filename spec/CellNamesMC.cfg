SPECIFICATION Spec
CONSTANT MaxCol = 18300
INVARIANTS Agree Ordered DistinctCells DistinctRel
