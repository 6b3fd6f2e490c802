SPECIFICATION Spec
CONSTANTS Vary = "dims"
INVARIANTS NoZeroReduction OrderFree Emit
CHECK_DEADLOCK FALSE
