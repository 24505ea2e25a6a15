INIT Init
NEXT Next
CONSTANTS Lo = 4  Hi = 6  MaxA = 2  MaxB = 1  Candidates = TRUE
INVARIANTS Unique
CHECK_DEADLOCK FALSE
