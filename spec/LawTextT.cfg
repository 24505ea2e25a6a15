INIT Init
NEXT Next
CONSTANTS Bibles = {2, 3, 4}  MaxRanges = 2  Fs = {0, 1, 2, 3}
INVARIANTS RoundTrip One Regrouping Shortest
CHECK_DEADLOCK FALSE
