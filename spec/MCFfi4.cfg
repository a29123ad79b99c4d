SPECIFICATION Spec
CONSTANT MaxH = 4
CONSTRAINT Bound
INVARIANTS Inv Total
PROPERTIES NoRevival OwnError OwnFiles
VIEW View
CHECK_DEADLOCK FALSE
