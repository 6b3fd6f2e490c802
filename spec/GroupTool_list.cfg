SPECIFICATION Spec
CONSTANTS Mode = "list" Names = {"a", "b"} States = {"stopped"}
INVARIANTS OneSwitch LoadsOnlyMissingMembers Abandoned MembersKept Strangers Switched Emit
CHECK_DEADLOCK FALSE
