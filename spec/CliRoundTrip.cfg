CONSTANTS Rule = "right"
 MaxFiles = 3
 MaxDepth = 2
SPECIFICATION Spec
INVARIANTS Back Refusal
CHECK_DEADLOCK FALSE
