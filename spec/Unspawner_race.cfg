SPECIFICATION Spec
CONSTANTS Names = {"a", "b"} MaxTicks = 1 Acts = {"none", "start"} MaxActs = 1 Races = {"stop", "unload"}
INVARIANTS OnlyNamed Inhibits RestartsWhatItStopped NothingElseStarted Emit
CHECK_DEADLOCK FALSE
