CONSTANTS MaxLen = 5 MaxChannels = 2 Variant = "openloop"
INIT Init
NEXT Next
INVARIANTS Sound
CHECK_DEADLOCK FALSE
