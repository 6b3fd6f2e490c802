SPECIFICATION Spec
CONSTANTS Names = {"a", "b"} MaxTicks = 2 Acts = {"none", "start", "unload"} MaxActs = 2 Races = {}
INVARIANTS OnlyNamed Inhibits RestartsWhatItStopped NothingElseStarted Emit
CHECK_DEADLOCK FALSE
