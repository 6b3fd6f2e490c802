SPECIFICATION Spec
CONSTANTS Kinds = {"PosSat", "VelSat"} Depth = 3 Lean = TRUE Wide = FALSE
INVARIANTS MemorylessUnlessPosition Emit
PROPERTIES WithinHard Nearest RateOfPosition OnlyBack
CHECK_DEADLOCK FALSE
