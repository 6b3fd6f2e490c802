SPECIFICATION Spec
CONSTANTS Mode = "lister" Size = 3
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
