SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxLen = 4
  MaxViews = 0
  Keys = {1, 2}
INVARIANTS Inv EmitInv FailSafe ViewWrites SortLaw
PROPERTY Gone
CHECK_DEADLOCK FALSE
