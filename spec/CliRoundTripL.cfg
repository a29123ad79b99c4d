CONSTANTS Rule = "right"
 MaxFiles = 3
 MaxDepth = 3
SPECIFICATION Spec
INVARIANTS Back Refusal
CHECK_DEADLOCK FALSE
