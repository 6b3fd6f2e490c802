SPECIFICATION Spec
CONSTANTS Mode = "twoall" MaxOps = 8
INVARIANTS Provided OwnUntouched RoundTrip Emit
CHECK_DEADLOCK FALSE
