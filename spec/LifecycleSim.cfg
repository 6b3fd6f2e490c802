SPECIFICATION Spec
CONSTANTS Depth = 40 N = 3
INVARIANTS TypeOK InitOnce Emit
PROPERTIES NeverBack OthersUntouched
CHECK_DEADLOCK FALSE
