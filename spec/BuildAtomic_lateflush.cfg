CONSTANTS Blocks = 5 Variant = "lateflush"
SPECIFICATION Spec
INVARIANTS AllOrNothing SuccessInstalls FailureLeaves
PROPERTY Ends
CHECK_DEADLOCK FALSE
