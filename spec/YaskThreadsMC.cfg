SPECIFICATION Spec
CONSTANTS NT = 3 LEN = 2 NC = 2 Kinds = {"r", "w"}
INVARIANT Deterministic
CHECK_DEADLOCK FALSE
