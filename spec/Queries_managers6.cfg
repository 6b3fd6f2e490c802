SPECIFICATION Spec
CONSTANTS Mode = "managers" Size = 6
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
