SPECIFICATION Spec
CONSTANTS Mode = "attr" Size = 9
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
