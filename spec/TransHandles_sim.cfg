SPECIFICATION Spec
CONSTANTS Mode = "run" Depth = 9 Deviations = 0 HandleKinds = {"A2Jstate", "A2Jposition", "A2Jvelocity", "A2Jeffort", "J2Astate", "J2Aposition", "J2Avelocity", "J2Aeffort"} RunNames = {"x", "y", "z", "w"} Confs = {"simple", "diff", "bypass", "four", "plain"}
INVARIANTS NeverNull Emit
PROPERTIES Untouched InputsKept Sensors
CHECK_DEADLOCK FALSE
