INIT Init
NEXT Next
CONSTANTS Bibles = {2, 3, 4}  MaxInner = 0
INVARIANTS Counts Shapes Expansion Parts
CHECK_DEADLOCK FALSE
