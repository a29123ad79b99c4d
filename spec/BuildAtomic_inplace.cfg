CONSTANTS Blocks = 5 Variant = "inplace"
SPECIFICATION Spec
INVARIANTS AllOrNothing SuccessInstalls FailureLeaves
PROPERTY Ends
CHECK_DEADLOCK FALSE
