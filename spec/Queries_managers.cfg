SPECIFICATION Spec
CONSTANTS Mode = "managers" Size = 3
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
