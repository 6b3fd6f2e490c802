SPECIFICATION Spec
CONSTANTS Mode = "faults" MaxOps = 8
INVARIANTS Provided OwnUntouched RoundTrip Emit
CHECK_DEADLOCK FALSE
