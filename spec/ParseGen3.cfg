SPECIFICATION Spec
VIEW View
CONSTANTS
  BI = 3
  Top = 4
INVARIANTS Valid Incremental Emit
CHECK_DEADLOCK FALSE
