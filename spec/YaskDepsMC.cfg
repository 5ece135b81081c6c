SPECIFICATION Spec
INVARIANT LegalEnds
INVARIANT CyclicStuck
INVARIANT NoLateWrite
CHECK_DEADLOCK FALSE
