SPECIFICATION MCSpec
CONSTANTS NThreads = 2 Calls = 2 Reset = FALSE Timeouts = TRUE OpsName = "core"
INVARIANT Inv
PROPERTY HooksInCycle FailureSilent NoLateSwitch ListSteps SafeDeath FullCycle NoBadAccept SuccessMeans
CHECK_DEADLOCK FALSE
