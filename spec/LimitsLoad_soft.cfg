SPECIFICATION Spec
CONSTANTS Depth = 1 Mode = "soft"
INVARIANT Emit
PROPERTIES NothingSpecified OnlySpecified Whole SwitchedOff UrdfKeepsRest
CHECK_DEADLOCK FALSE
