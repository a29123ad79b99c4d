CONSTANTS Rule = "full"
 MaxFiles = 2
 MaxDepth = 3
SPECIFICATION Spec
INVARIANTS Back Refusal
CHECK_DEADLOCK FALSE
