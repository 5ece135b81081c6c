SPECIFICATION Spec
INVARIANTS Exact Closed Zero AnyOrder Mirror
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
