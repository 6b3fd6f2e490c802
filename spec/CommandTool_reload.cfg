SPECIFICATION Spec
CONSTANTS Cmds = {"reload", "reload restore", "api reload", "api restore", "list", "types", "none"} Names = {"a", "b"} MaxArgs = 0 States = {"absent", "stopped", "running"} Throws = {} Order <- Order2
INVARIANTS EveryArgument OneCommand Honest Restored Killed Spawned Emit
CHECK_DEADLOCK FALSE
