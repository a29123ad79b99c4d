CONSTANTS Blocks = 5 Variant = "ignorerename"
SPECIFICATION Spec
INVARIANTS AllOrNothing SuccessInstalls FailureLeaves
PROPERTY Ends
CHECK_DEADLOCK FALSE
