SPECIFICATION Spec
CONSTANTS Mode = "two" MaxOps = 8
INVARIANTS Provided OwnUntouched RoundTrip Emit
CHECK_DEADLOCK FALSE
