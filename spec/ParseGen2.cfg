SPECIFICATION Spec
VIEW View
CONSTANTS
  BI = 2
  Top = 4
INVARIANTS Valid Incremental Emit
CHECK_DEADLOCK FALSE
