CONSTANTS Rule = "join"
 Keep = TRUE
 MaxParts = 3
 MaxEntries = 2
SPECIFICATION Spec
INVARIANTS Contained Complete Faithful
CHECK_DEADLOCK FALSE
