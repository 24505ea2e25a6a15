INIT Init
NEXT Next
CONSTANTS Lo = 1  Hi = 7  MaxA = 2  MaxB = 2  Candidates = FALSE
INVARIANTS Exists Algebra Honest Predicates
CHECK_DEADLOCK FALSE
