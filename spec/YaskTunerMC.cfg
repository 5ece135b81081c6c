SPECIFICATION Spec
CONSTANTS N1 = 4 N2 = 3 R = 2
INVARIANTS TypeOK HasBest Fresh
PROPERTIES Ends
CHECK_DEADLOCK FALSE
