CONSTANTS Blocks = 5 Variant = "litter"
SPECIFICATION Spec
INVARIANTS AllOrNothing SuccessInstalls FailureLeaves
PROPERTY Ends
CHECK_DEADLOCK FALSE
