CONSTANTS MaxLen = 5 MaxChannels = 2 Variant = "noraise"
INIT Init
NEXT Next
INVARIANTS Sound
CHECK_DEADLOCK FALSE
