INIT GInit
NEXT GNext
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
