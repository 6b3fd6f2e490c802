SPECIFICATION Spec
CONSTANTS Mode = "attr" Size = 2
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
