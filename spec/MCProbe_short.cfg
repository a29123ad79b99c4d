CONSTANTS Slots = 3 Names = {"n1", "n2", "n3"} Variant = "short"
INIT Init
NEXT Next
INVARIANTS Truthful Enumerated
CHECK_DEADLOCK FALSE
