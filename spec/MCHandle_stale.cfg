CONSTANTS Handles = {1, 2} Depth = 4 Variant = "stale"
INIT Init
NEXT Next
INVARIANTS SameAnswer ReadOnly
CHECK_DEADLOCK FALSE
