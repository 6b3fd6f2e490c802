SPECIFICATION Spec
CONSTANTS Mode = "menu" Depth = 6 Merged = FALSE
INVARIANTS Offered EachOnce Faithful Emit
PROPERTIES KeptWhileUp AsksOnlyWhenChosen
CHECK_DEADLOCK FALSE
