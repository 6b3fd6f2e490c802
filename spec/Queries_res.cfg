SPECIFICATION Spec
CONSTANTS Mode = "res" Size = 2
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
