SPECIFICATION Spec
CONSTANTS Depth = 6 N = 1
INVARIANTS TypeOK HooksAfterInit UpdateOnlyRunning InitOnce Emit
PROPERTIES NeverBack OthersUntouched
CHECK_DEADLOCK FALSE
