SPECIFICATION Spec
CONSTANTS Mode = "docs" MaxDocs = 2 MaxElems = 2
INVARIANTS InOrder Wellformed FailedAddsNothing Deterministic Emit
CHECK_DEADLOCK FALSE
