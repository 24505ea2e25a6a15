INIT Init
NEXT Next
INVARIANTS Accepted OneBook NoSpace
CHECK_DEADLOCK FALSE
