CONSTANTS MaxN = 18 MaxChars = 3 MaxNames = 2
INIT Init
NEXT Next
INVARIANTS Complete TooShort ListRoundTrip
CHECK_DEADLOCK FALSE
