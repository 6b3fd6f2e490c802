SPECIFICATION Spec
CONSTANTS Depth = 2 Mode = "seq"
INVARIANT Emit
PROPERTIES NothingSpecified OnlySpecified Whole SwitchedOff UrdfKeepsRest
CHECK_DEADLOCK FALSE
