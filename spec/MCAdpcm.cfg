CONSTANTS MaxLen = 5 MaxChannels = 2 Variant = "none"
INIT Init
NEXT Next
INVARIANTS Sound
CHECK_DEADLOCK FALSE
