INIT Init
NEXT Next
CONSTANTS Lo = 3  Hi = 6  MaxA = 2  MaxB = 1  Candidates = FALSE
INVARIANTS Exists Algebra Honest Predicates
CHECK_DEADLOCK FALSE
