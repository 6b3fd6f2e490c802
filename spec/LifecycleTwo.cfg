SPECIFICATION Spec
CONSTANTS Depth = 4 N = 2
INVARIANTS TypeOK HooksAfterInit UpdateOnlyRunning InitOnce Emit
PROPERTIES NeverBack OthersUntouched
CHECK_DEADLOCK FALSE
