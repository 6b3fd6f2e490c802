SPECIFICATION Spec
CONSTANTS Kinds = {"PosSoft", "VelSoft", "EffSoft"} Depth = 1 Lean = TRUE Wide = FALSE
INVARIANTS MemorylessUnlessPosition Emit
PROPERTIES WithinHard Nearest RateOfPosition OnlyBack
CHECK_DEADLOCK FALSE
