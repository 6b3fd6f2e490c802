SPECIFICATION Spec
CONSTANTS Mode = "switch" Names = {"a", "b"} States = {"absent", "stopped", "running"}
INVARIANTS OneSwitch LoadsOnlyMissingMembers Abandoned MembersKept Strangers Switched Emit
CHECK_DEADLOCK FALSE
