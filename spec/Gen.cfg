SPECIFICATION GSpec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
