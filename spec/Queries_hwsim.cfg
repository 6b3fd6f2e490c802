SPECIFICATION Spec
CONSTANTS Mode = "hw" Size = 9
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
