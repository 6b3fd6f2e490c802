SPECIFICATION Spec
CONSTANTS Vary = "actuators"
INVARIANTS NoZeroReduction OrderFree Emit
CHECK_DEADLOCK FALSE
