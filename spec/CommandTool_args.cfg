SPECIFICATION Spec
CONSTANTS Cmds = {"load", "unload", "start", "stop", "spawn", "kill", "nonsense"} Names = {"a", "b"} MaxArgs = 2 States = {"absent", "stopped", "running"} Throws = {} Order <- Order2
INVARIANTS EveryArgument OneCommand Honest Restored Killed Spawned Emit
CHECK_DEADLOCK FALSE
