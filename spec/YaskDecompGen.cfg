SPECIFICATION Spec
CONSTANTS MCN = 2  MCD = 2  MaxSets = 5
VIEW View
INVARIANTS Emit
CHECK_DEADLOCK FALSE
