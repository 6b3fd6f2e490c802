SPECIFICATION Spec
CONSTANTS Mode = "switch" Names = {"a", "b", "c"} States = {"absent", "stopped", "running"}
INVARIANTS OneSwitch LoadsOnlyMissingMembers Abandoned MembersKept Strangers Switched Emit
CHECK_DEADLOCK FALSE
