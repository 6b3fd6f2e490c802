SPECIFICATION Spec
CONSTANTS Mode = "params" Size = 1
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
