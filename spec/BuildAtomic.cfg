CONSTANTS Blocks = 5 Variant = "ok"
SPECIFICATION Spec
INVARIANTS AllOrNothing SuccessInstalls FailureLeaves
PROPERTY Ends
CHECK_DEADLOCK FALSE
