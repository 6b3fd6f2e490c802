SPECIFICATION Spec
CONSTANTS Cmds = {"api start", "api stop", "api both"} Names = {"a", "b"} MaxArgs = 2 States = {"absent", "stopped", "running"} Throws = {"start:a"} Order <- Order2
INVARIANTS EveryArgument OneCommand Honest Restored Killed Spawned Emit
CHECK_DEADLOCK FALSE
