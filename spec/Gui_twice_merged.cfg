SPECIFICATION Spec
CONSTANTS Mode = "twice" Depth = 9 Merged = TRUE
INVARIANTS Offered EachOnce Faithful Emit
PROPERTIES KeptWhileUp AsksOnlyWhenChosen
CHECK_DEADLOCK FALSE
