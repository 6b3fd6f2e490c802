SPECIFICATION Spec
CONSTANTS Mode = "loads" Names = {"a", "b"} MaxArgs = 3
INVARIANTS LoadsInOrder StartsOnlyWhatItLoaded UnloadsReversed TouchesOnlyWhatItLoaded Undone NothingRunsOn Emit
CHECK_DEADLOCK FALSE
