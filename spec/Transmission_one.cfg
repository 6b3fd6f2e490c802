SPECIFICATION Spec
CONSTANTS Depth = 1 Kinds = {"simple", "diff", "four"} RedNames = {"one", "neg", "half"} OffNames = {"plus", "minus"} DataNames = {"generic"} MapSet = "all"
INVARIANTS Inverse Power Sensors Emit
PROPERTIES OneOutput
CHECK_DEADLOCK FALSE
