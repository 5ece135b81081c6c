SPECIFICATION Spec
CONSTANTS NT = 2 LEN = 3 NC = 1 Kinds = {"r", "w", "a"}
INVARIANT Deterministic
CHECK_DEADLOCK FALSE
