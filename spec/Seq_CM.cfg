SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c"}
VIEW View
INVARIANT Emit
CHECK_DEADLOCK FALSE
