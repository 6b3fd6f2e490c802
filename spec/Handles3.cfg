SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANT Emit
PROPERTY OnlyOwn
CHECK_DEADLOCK FALSE
