SPECIFICATION Spec
CONSTANTS Mode = "hw" Size = 3
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
