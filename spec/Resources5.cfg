SPECIFICATION Spec
CONSTANTS Names = {"joint_a", "joint_b"} Depth = 5
INVARIANTS NoClaimWithoutPolicy Emit
PROPERTIES NamesNeverForgotten LookupsKeepHandles
CHECK_DEADLOCK FALSE
