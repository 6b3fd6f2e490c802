SPECIFICATION Spec
CONSTANTS Mode = "lister" Size = 2
INVARIANTS Exact NeverMissed InOrderOnce NothingAskedMatchesAll Emit
CHECK_DEADLOCK FALSE
