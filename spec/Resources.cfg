SPECIFICATION Spec
CONSTANTS Names = {"joint_a", "joint_b"} Depth = 4
INVARIANTS NoClaimWithoutPolicy Emit
PROPERTIES NamesNeverForgotten LookupsKeepHandles
CHECK_DEADLOCK FALSE
