SPECIFICATION Spec
CONSTANTS Depth = 12 MaxInit = 12
Robots <- BigRobots
Behaviours <- RandomBehaviours
INVARIANTS OnlyOwnHandles Emit
PROPERTY NothingKept
CHECK_DEADLOCK FALSE
