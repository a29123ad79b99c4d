SPECIFICATION Spec
CONSTANTS N = 3 D = 7 T = 3 S = 2 Wrong = ""
INVARIANTS NoPanic Bounded Prompt
PROPERTY Ends
CHECK_DEADLOCK FALSE
