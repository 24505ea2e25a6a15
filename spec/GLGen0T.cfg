SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxLen = 5
  MaxViews = 0
  Keys = {1, 2}
INVARIANTS Inv EmitInv FailSafe ViewWrites SortLaw
PROPERTY Gone
CHECK_DEADLOCK FALSE
