SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANT Emit
PROPERTY OnlyOwn
CHECK_DEADLOCK FALSE
