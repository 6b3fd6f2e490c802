SPECIFICATION Spec
CONSTANTS Depth = 8 MaxInit = 8
Robots <- AllRobots
INVARIANTS OnlyOwnHandles Emit
PROPERTY NothingKept
CHECK_DEADLOCK FALSE
