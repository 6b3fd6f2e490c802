SPECIFICATION Spec
CONSTANTS Depth = 2 Kinds = {"simple", "diff", "four"} RedNames = {"one", "neg", "half"} OffNames = {"zero", "plus", "minus"} DataNames = {"generic", "zeros", "equal"} MapSet = "back"
INVARIANTS Inverse Power Sensors Emit
PROPERTIES OneOutput
CHECK_DEADLOCK FALSE
