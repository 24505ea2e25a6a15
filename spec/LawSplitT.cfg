INIT Init
NEXT Next
CONSTANTS Bibles = {2, 3, 4}  MaxInner = 9
INVARIANTS SplitExists SplitUnique
CHECK_DEADLOCK FALSE
