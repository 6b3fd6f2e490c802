SPECIFICATION Spec
CONSTANTS Mode = "loads" Names = {"a", "b"} MaxArgs = 2
INVARIANTS LoadsInOrder StartsOnlyWhatItLoaded UnloadsReversed TouchesOnlyWhatItLoaded Undone NothingRunsOn Emit
CHECK_DEADLOCK FALSE
