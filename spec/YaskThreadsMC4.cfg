SPECIFICATION Spec
CONSTANTS NT = 2 LEN = 3 NC = 2 Kinds = {"r", "w", "a"}
INVARIANT Deterministic
CHECK_DEADLOCK FALSE
