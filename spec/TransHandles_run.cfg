SPECIFICATION Spec
CONSTANTS Mode = "run" Depth = 2 Deviations = 0 HandleKinds = {"A2Jstate", "A2Jposition", "A2Jvelocity", "A2Jeffort", "J2Astate", "J2Aposition", "J2Avelocity", "J2Aeffort"} RunNames = {"x", "y"} Confs = {"simple", "diff", "bypass", "four", "plain"}
INVARIANTS NeverNull Emit
PROPERTIES Untouched InputsKept Sensors
CHECK_DEADLOCK FALSE
