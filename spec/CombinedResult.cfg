SPECIFICATION Spec
CONSTANTS NParts = 3 Mode = "result"
INVARIANTS NothingLost OnlyOwn NeverBetter Emit
CHECK_DEADLOCK FALSE
