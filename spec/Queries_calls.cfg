SPECIFICATION Spec
CONSTANTS Mode = "calls" Size = 3
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
