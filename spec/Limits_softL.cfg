SPECIFICATION Spec
CONSTANTS Kinds = {"PosSoft", "VelSoft", "EffSoft"} Depth = 8 Lean = FALSE Wide = FALSE
INVARIANTS MemorylessUnlessPosition Emit
PROPERTIES WithinHard Nearest RateOfPosition OnlyBack
CHECK_DEADLOCK FALSE
