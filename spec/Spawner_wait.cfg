SPECIFICATION Spec
CONSTANTS Mode = "wait" Names = {"a"} MaxArgs = 1
INVARIANTS LoadsInOrder StartsOnlyWhatItLoaded UnloadsReversed TouchesOnlyWhatItLoaded Undone NothingRunsOn Emit
CHECK_DEADLOCK FALSE
