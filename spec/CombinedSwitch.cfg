SPECIFICATION Spec
CONSTANTS NParts = 2 Mode = "route"
INVARIANTS NothingLost OnlyOwn NeverBetter Emit
CHECK_DEADLOCK FALSE
