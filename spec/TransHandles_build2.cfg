SPECIFICATION Spec
CONSTANTS Mode = "build" Depth = 0 Deviations = 2 HandleKinds = {"A2Jstate", "J2Aeffort"} RunNames = {"x"} Confs = {"simple"}
INVARIANTS NeverNull Emit
CHECK_DEADLOCK FALSE
