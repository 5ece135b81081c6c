SPECIFICATION Spec
CONSTANTS MCN = 4  MCD = 2  MaxSets = 4
VIEW View
INVARIANTS Inv Kept Decides
CHECK_DEADLOCK FALSE
