SPECIFICATION Spec
CONSTANTS Values = {"2", "-3.25", "0", "-0.0", "1e-300"} MaxLen = 3 Spread = "one"
INVARIANTS NeverZero OffsetsFree Emit
CHECK_DEADLOCK FALSE
