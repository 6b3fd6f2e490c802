SPECIFICATION Spec
CONSTANTS Depth = 2 Kinds = {"simple", "diff", "four"} RedNames = {"neg", "tenth"} OffNames = {"zero", "minus"} DataNames = {"generic", "zeros"} MapSet = "back"
INVARIANTS Inverse Power Sensors Emit
PROPERTIES OneOutput
CHECK_DEADLOCK FALSE
