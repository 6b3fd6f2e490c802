SPECIFICATION Spec
CONSTANTS Mode = "build" Depth = 0 Deviations = 1 HandleKinds = {"A2Jstate", "A2Jposition", "A2Jvelocity", "A2Jeffort", "J2Astate", "J2Aposition", "J2Avelocity", "J2Aeffort"} RunNames = {"x"} Confs = {"simple"}
INVARIANTS NeverNull Emit
CHECK_DEADLOCK FALSE
