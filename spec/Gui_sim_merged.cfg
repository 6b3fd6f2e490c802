SPECIFICATION Spec
CONSTANTS Mode = "sim" Depth = 15 Merged = TRUE
INVARIANTS Offered EachOnce Faithful Emit
PROPERTIES KeptWhileUp AsksOnlyWhenChosen
CHECK_DEADLOCK FALSE
