SPECIFICATION Spec
CONSTANTS Depth = 1 Kinds = {"simple", "diff", "four"} RedNames = {"neg", "big"} OffNames = {"zero", "plus"} DataNames = {"big", "zeros", "equal"} MapSet = "all"
INVARIANTS Inverse Power Sensors Emit
PROPERTIES OneOutput
CHECK_DEADLOCK FALSE
