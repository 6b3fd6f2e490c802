SPECIFICATION Spec
CONSTANTS Resources = {"r1", "r2"} MaxCtl = 3 MaxIface = 2
INVARIANTS OrderFree Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
