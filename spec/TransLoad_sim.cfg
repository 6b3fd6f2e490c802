SPECIFICATION Spec
CONSTANTS Mode = "sim" MaxOps = 8
INVARIANTS Provided OwnUntouched RoundTrip Emit
CHECK_DEADLOCK FALSE
