SPECIFICATION Spec
CONSTANTS Mode = "one" MaxOps = 8
INVARIANTS Provided OwnUntouched RoundTrip Emit
CHECK_DEADLOCK FALSE
