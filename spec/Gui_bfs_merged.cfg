SPECIFICATION Spec
CONSTANTS Mode = "bfs" Depth = 4 Merged = TRUE
INVARIANTS Offered EachOnce Faithful Emit
PROPERTIES KeptWhileUp AsksOnlyWhenChosen
CHECK_DEADLOCK FALSE
