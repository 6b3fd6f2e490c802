SPECIFICATION Spec
CONSTANTS Mode = "one" MaxDocs = 1 MaxElems = 1
INVARIANTS InOrder Wellformed FailedAddsNothing Deterministic Emit
CHECK_DEADLOCK FALSE
