SPECIFICATION Spec
CONSTANT Depth = 12
INVARIANTS Faithful Emit
CHECK_DEADLOCK FALSE
