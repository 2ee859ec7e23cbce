SPECIFICATION Spec
CONSTANT Export = TRUE
INVARIANT OneCodec
INVARIANT Exported
CHECK_DEADLOCK FALSE
