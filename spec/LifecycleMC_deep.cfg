SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS TypeOK NeverBad Export
PROPERTY Final
