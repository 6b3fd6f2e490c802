SPECIFICATION Spec
CONSTANTS Cmds = {"api start", "api stop", "api both"} Names = {"a", "b", "c"} MaxArgs = 3 States = {"absent", "stopped", "running"} Throws = {} Order <- Order3
INVARIANTS EveryArgument OneCommand Honest Restored Killed Spawned Emit
CHECK_DEADLOCK FALSE
