CONSTANTS Handles = {1, 2} Depth = 4 Variant = "countdeferred"
INIT Init
NEXT Next
INVARIANTS SameAnswer ReadOnly
CHECK_DEADLOCK FALSE
