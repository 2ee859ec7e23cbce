SPECIFICATION Spec
CONSTANTS N = 5 HDR = 0
INVARIANTS NoiseInvisible TailInvisible CutDetected NestedInvisible PasswordMet Export
CHECK_DEADLOCK FALSE
