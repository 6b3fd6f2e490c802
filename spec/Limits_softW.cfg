SPECIFICATION Spec
CONSTANTS Kinds = {"PosSoft", "VelSoft", "EffSoft"} Depth = 1 Lean = FALSE Wide = TRUE
INVARIANTS MemorylessUnlessPosition Emit
PROPERTIES WithinHard Nearest RateOfPosition OnlyBack
CHECK_DEADLOCK FALSE
