INIT Init
NEXT Next
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
