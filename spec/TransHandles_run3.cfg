SPECIFICATION Spec
CONSTANTS Mode = "run" Depth = 3 Deviations = 0 HandleKinds = {"A2Jstate", "J2Astate", "A2Jvelocity"} RunNames = {"x", "y"} Confs = {"simple", "diff", "plain"}
INVARIANTS NeverNull Emit
PROPERTIES Untouched InputsKept Sensors
CHECK_DEADLOCK FALSE
