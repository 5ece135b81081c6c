SPECIFICATION Spec
CONSTANTS NT = 2 LEN = 2 NC = 1 Kinds = {"r", "w", "a"}
INVARIANT NoRaceMatters
CHECK_DEADLOCK FALSE
