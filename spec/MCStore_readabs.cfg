CONSTANTS SS = 3 MaxLen = 7 Variant = "readabs"
INIT Init
NEXT Next
INVARIANTS RoundTrip Accounted
CHECK_DEADLOCK FALSE
