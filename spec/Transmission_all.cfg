SPECIFICATION Spec
CONSTANTS Depth = 1 Kinds = {"simple", "diff", "four"} RedNames = {"one", "neg", "half", "tenth"} OffNames = {"zero", "plus", "minus"} DataNames = {"generic", "big", "equal"} MapSet = "all"
INVARIANTS Inverse Power Sensors Emit
PROPERTIES OneOutput
CHECK_DEADLOCK FALSE
