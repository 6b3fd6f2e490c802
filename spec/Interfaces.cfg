SPECIFICATION Spec
CONSTANTS NMan = 2 Objects = {"A1", "A2", "P1", "P2"} Depth = 5
INVARIANTS Complete Emit
CHECK_DEADLOCK FALSE
