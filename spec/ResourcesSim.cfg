SPECIFICATION Spec
CONSTANTS Names = {"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9"} Depth = 40
INVARIANTS Emit
PROPERTIES NamesNeverForgotten LookupsKeepHandles
CHECK_DEADLOCK FALSE
