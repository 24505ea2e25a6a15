SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxLen = 3
  MaxViews = 1
  Keys = {1, 2}
INVARIANTS Inv EmitInv FailSafe ViewWrites SortLaw
PROPERTY Gone
CHECK_DEADLOCK FALSE
