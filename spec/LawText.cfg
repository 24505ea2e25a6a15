INIT Init
NEXT Next
CONSTANTS Bibles = {4}  MaxRanges = 2  Fs = {3}
INVARIANTS RoundTrip One Regrouping Shortest
CHECK_DEADLOCK FALSE
