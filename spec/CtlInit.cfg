SPECIFICATION Spec
CONSTANTS Depth = 2 MaxInit = 1
Robots <- AllRobots
INVARIANTS OnlyOwnHandles Emit
PROPERTY NothingKept
CHECK_DEADLOCK FALSE
