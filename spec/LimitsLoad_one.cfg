SPECIFICATION Spec
CONSTANTS Depth = 1 Mode = "one"
INVARIANT Emit
PROPERTIES NothingSpecified OnlySpecified Whole SwitchedOff UrdfKeepsRest
CHECK_DEADLOCK FALSE
