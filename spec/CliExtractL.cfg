CONSTANTS Rule = "safe"
 Keep = TRUE
 MaxParts = 5
 MaxEntries = 1
SPECIFICATION Spec
INVARIANTS Contained Complete Faithful
CHECK_DEADLOCK FALSE
