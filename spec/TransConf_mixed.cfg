SPECIFICATION Spec
CONSTANTS Values = {"-0.5", "0", "1e300"} MaxLen = 3 Spread = "mixed"
INVARIANTS NeverZero OffsetsFree Emit
CHECK_DEADLOCK FALSE
