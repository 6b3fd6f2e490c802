SPECIFICATION Spec
CONSTANTS Mode = "several" MaxDocs = 1 MaxElems = 3
INVARIANTS InOrder Wellformed FailedAddsNothing Deterministic Emit
CHECK_DEADLOCK FALSE
