SPECIFICATION Spec
CONSTANTS Mode = "faults" Names = {"a", "b", "c"} MaxArgs = 3
INVARIANTS LoadsInOrder StartsOnlyWhatItLoaded UnloadsReversed TouchesOnlyWhatItLoaded Undone NothingRunsOn Emit
CHECK_DEADLOCK FALSE
