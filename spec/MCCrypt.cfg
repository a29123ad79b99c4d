INIT Init
NEXT Next
INVARIANTS RoundTrip LengthKept Prefix
CHECK_DEADLOCK FALSE
