SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS TypeOK NeverBad Export
PROPERTY Final
