SPECIFICATION Spec
CONSTANTS Kinds = {"PosSoft"} Depth = 2 Lean = TRUE Wide = FALSE
INVARIANTS MemorylessUnlessPosition Emit
PROPERTIES WithinHard Nearest RateOfPosition OnlyBack
CHECK_DEADLOCK FALSE
