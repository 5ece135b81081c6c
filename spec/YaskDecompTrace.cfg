SPECIFICATION Spec
CONSTRAINT Progress
INVARIANT TilesInv
POSTCONDITION Report
CHECK_DEADLOCK FALSE
