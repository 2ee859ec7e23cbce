SPECIFICATION Spec
CONSTANTS N = 5 HDR = 1
INVARIANTS NoiseInvisible TailInvisible CutDetected NestedInvisible PasswordMet Export
CHECK_DEADLOCK FALSE
