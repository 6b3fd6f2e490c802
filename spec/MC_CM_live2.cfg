SPECIFICATION Live
CONSTANTS NThreads = 2 Calls = 1 Reset = FALSE Timeouts = TRUE OpsName = "asap"
PROPERTY EveryCallEnds
CHECK_DEADLOCK FALSE
