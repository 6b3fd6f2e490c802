SPECIFICATION DSpec
CONSTRAINT Furthest
POSTCONDITION Report
CHECK_DEADLOCK FALSE
