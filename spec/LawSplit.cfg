INIT Init
NEXT Next
CONSTANTS Bibles = {4}  MaxInner = 3
INVARIANTS SplitExists SplitUnique
CHECK_DEADLOCK FALSE
