CONSTANTS Alphabet = {0, 1, 8} MaxLen = 9 Lim = 4 MaxRun = 3 EndMark = 8 Gain = 0
INIT Init
NEXT Next
INVARIANTS CodeRoundTrip StoreRoundTrip StrictlySmaller
CHECK_DEADLOCK FALSE
