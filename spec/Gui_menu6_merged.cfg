SPECIFICATION Spec
CONSTANTS Mode = "menu" Depth = 7 Merged = TRUE
INVARIANTS Offered EachOnce Faithful Emit
PROPERTIES KeptWhileUp AsksOnlyWhenChosen
CHECK_DEADLOCK FALSE
