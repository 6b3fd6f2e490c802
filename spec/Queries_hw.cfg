SPECIFICATION Spec
CONSTANTS Mode = "hw" Size = 2
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
