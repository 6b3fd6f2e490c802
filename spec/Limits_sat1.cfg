SPECIFICATION Spec
CONSTANTS Kinds = {"PosSat", "VelSat", "EffSat"} Depth = 1 Lean = FALSE Wide = FALSE
INVARIANTS MemorylessUnlessPosition Emit
PROPERTIES WithinHard Nearest RateOfPosition OnlyBack
CHECK_DEADLOCK FALSE
