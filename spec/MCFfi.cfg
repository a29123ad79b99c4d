SPECIFICATION Spec
CONSTANT MaxH = 3
CONSTRAINT Bound
INVARIANTS Inv Total
PROPERTIES NoRevival OwnError OwnFiles
VIEW View
CHECK_DEADLOCK FALSE
