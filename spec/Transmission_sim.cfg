SPECIFICATION Spec
CONSTANTS Depth = 6 Kinds = {"simple", "diff", "four"} RedNames = {"one", "neg", "half"} OffNames = {"zero", "plus", "minus"} DataNames = {"generic", "zeros", "equal"} MapSet = "all"
INVARIANTS Inverse Power Sensors Emit
PROPERTIES OneOutput
CHECK_DEADLOCK FALSE
