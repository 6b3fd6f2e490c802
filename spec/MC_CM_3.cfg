SPECIFICATION MCSpec
CONSTANTS NThreads = 3 Calls = 1 Reset = TRUE Timeouts = TRUE OpsName = "core"
INVARIANT Inv
PROPERTY HooksInCycle FailureSilent NoLateSwitch ListSteps SafeDeath FullCycle NoBadAccept SuccessMeans
CHECK_DEADLOCK FALSE
