SPECIFICATION Spec
CONSTANT Depth = 25
INVARIANTS LastSet Emit
CHECK_DEADLOCK FALSE
