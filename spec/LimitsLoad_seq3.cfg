SPECIFICATION Spec
CONSTANTS Depth = 3 Mode = "seq"
INVARIANT Emit
PROPERTIES NothingSpecified OnlySpecified Whole SwitchedOff UrdfKeepsRest
CHECK_DEADLOCK FALSE
