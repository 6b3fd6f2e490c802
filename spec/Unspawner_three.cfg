SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c"} MaxTicks = 2 Acts = {"none", "start", "stop"} MaxActs = 2 Races = {}
INVARIANTS OnlyNamed Inhibits RestartsWhatItStopped NothingElseStarted Emit
CHECK_DEADLOCK FALSE
