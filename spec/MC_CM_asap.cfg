SPECIFICATION MCSpec
CONSTANTS NThreads = 2 Calls = 2 Reset = TRUE Timeouts = TRUE OpsName = "asap"
INVARIANT Inv
PROPERTY HooksInCycle FailureSilent NoLateSwitch ListSteps SafeDeath FullCycle NoBadAccept SuccessMeans
CHECK_DEADLOCK FALSE
