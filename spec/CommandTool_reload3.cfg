SPECIFICATION Spec
CONSTANTS Cmds = {"reload restore", "api restore", "list"} Names = {"a", "b", "c"} MaxArgs = 0 States = {"absent", "stopped", "running"} Throws = {} Order <- Order3
INVARIANTS EveryArgument OneCommand Honest Restored Killed Spawned Emit
CHECK_DEADLOCK FALSE
