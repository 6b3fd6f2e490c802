SPECIFICATION Spec
CONSTANTS MaxParts = 3 Cycles = 2
Lists <- AllLists
INVARIANTS OnceEach NoCycleUnlessReady Emit
CHECK_DEADLOCK FALSE
