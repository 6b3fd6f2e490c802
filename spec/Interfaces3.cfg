SPECIFICATION Spec
CONSTANTS NMan = 5 Objects = {"A1", "A2", "A3", "A4", "P1", "P2", "B1", "B2"} Depth = 16
INVARIANTS Complete Emit
CHECK_DEADLOCK FALSE
