SPECIFICATION Spec
CONSTANTS Depth = 2 Mode = "soft"
INVARIANT Emit
PROPERTIES NothingSpecified OnlySpecified Whole SwitchedOff UrdfKeepsRest
CHECK_DEADLOCK FALSE
