SPECIFICATION Spec
CONSTANTS Names = {"a", "b"} MaxTicks = 1 Acts = {"none", "start", "stop", "unload", "load"} MaxActs = 2 Races = {}
INVARIANTS OnlyNamed Inhibits RestartsWhatItStopped NothingElseStarted Emit
CHECK_DEADLOCK FALSE
