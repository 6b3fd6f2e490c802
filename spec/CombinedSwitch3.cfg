SPECIFICATION Spec
CONSTANTS NParts = 3 Mode = "route"
INVARIANTS NothingLost OnlyOwn NeverBetter Emit
CHECK_DEADLOCK FALSE
