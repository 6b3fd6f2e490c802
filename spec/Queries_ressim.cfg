SPECIFICATION Spec
CONSTANTS Mode = "res" Size = 9
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
