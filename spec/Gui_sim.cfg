SPECIFICATION Spec
CONSTANTS Mode = "sim" Depth = 15 Merged = FALSE
INVARIANTS Offered EachOnce Faithful Emit
PROPERTIES KeptWhileUp AsksOnlyWhenChosen
CHECK_DEADLOCK FALSE
