SPECIFICATION Spec
CONSTANTS Mode = "docs" MaxDocs = 3 MaxElems = 2
INVARIANTS InOrder Wellformed FailedAddsNothing Deterministic Emit
CHECK_DEADLOCK FALSE
