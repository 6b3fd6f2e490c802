SPECIFICATION Spec
CONSTANTS MaxParts = 4 Cycles = 2
Lists <- GoodLists
INVARIANTS OnceEach NoCycleUnlessReady Emit
CHECK_DEADLOCK FALSE
