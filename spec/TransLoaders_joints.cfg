SPECIFICATION Spec
CONSTANTS Vary = "joints"
INVARIANTS NoZeroReduction OrderFree Emit
CHECK_DEADLOCK FALSE
