SPECIFICATION Spec
CONSTANTS Vary = "all"
INVARIANTS NoZeroReduction OrderFree Emit
CHECK_DEADLOCK FALSE
