SPECIFICATION Spec
VIEW View
CONSTANTS
  BI = 4
  Top = 4
INVARIANTS Valid Incremental Emit
CHECK_DEADLOCK FALSE
