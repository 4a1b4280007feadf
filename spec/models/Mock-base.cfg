SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxWrites = 2
  MaxRead = 3
  Defects = {}
  Record = FALSE
INVARIANTS Refines Same
CHECK_DEADLOCK FALSE
