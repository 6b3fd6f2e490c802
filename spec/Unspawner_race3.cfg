SPECIFICATION Spec
CONSTANTS Names = {"a", "b"} MaxTicks = 2 Acts = {"none", "start", "stop"} MaxActs = 2 Races = {"stop", "unload"}
INVARIANTS OnlyNamed Inhibits RestartsWhatItStopped NothingElseStarted Emit
CHECK_DEADLOCK FALSE
