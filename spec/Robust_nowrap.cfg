SPECIFICATION Spec
CONSTANTS N = 1 D = 3 T = 2 S = 2 Wrong = "nowrap"
INVARIANTS NoPanic Bounded Prompt
CHECK_DEADLOCK FALSE
