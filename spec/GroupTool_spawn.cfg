SPECIFICATION Spec
CONSTANTS Mode = "spawn" Names = {"a", "b"} States = {"absent", "stopped"}
INVARIANTS OneSwitch LoadsOnlyMissingMembers Abandoned MembersKept Strangers Switched Emit
CHECK_DEADLOCK FALSE
