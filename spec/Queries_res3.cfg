SPECIFICATION Spec
CONSTANTS Mode = "res" Size = 3
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
