SPECIFICATION Spec
CONSTANTS Depth = 2 MaxInit = 2
Robots <- SomeRobots
INVARIANTS OnlyOwnHandles Emit
PROPERTY NothingKept
CHECK_DEADLOCK FALSE
