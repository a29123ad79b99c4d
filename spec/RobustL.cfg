SPECIFICATION Spec
CONSTANTS N = 4 D = 9 T = 4 S = 3 Wrong = ""
INVARIANTS NoPanic Bounded Prompt
PROPERTY Ends
CHECK_DEADLOCK FALSE
