SPECIFICATION Spec
CONSTANTS N = 1 D = 3 T = 2 S = 2 Wrong = "sub"
INVARIANTS NoPanic Bounded Prompt
CHECK_DEADLOCK FALSE
