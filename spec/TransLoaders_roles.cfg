SPECIFICATION Spec
CONSTANTS Vary = "roles"
INVARIANTS NoZeroReduction OrderFree Emit
CHECK_DEADLOCK FALSE
