SPECIFICATION Spec
CONSTANTS Cmds = {"load", "unload", "start", "stop", "spawn", "kill"} Names = {"a", "b"} MaxArgs = 2 States = {"absent", "running"} Throws = {"load:b", "unload:a", "start:b", "stop:a"} Order <- Order2
INVARIANTS EveryArgument OneCommand Honest Restored Killed Spawned Emit
CHECK_DEADLOCK FALSE
