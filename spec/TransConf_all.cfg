SPECIFICATION Spec
CONSTANTS Values = {"2", "-3.25", "0", "-0.0", "4.9e-324"} MaxLen = 3 Spread = "mixed"
INVARIANTS NeverZero OffsetsFree Emit
CHECK_DEADLOCK FALSE
