SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxWrites = 3
  MaxRead = 5
  Defects = {}
  Record = FALSE
INVARIANTS Refines Same
CHECK_DEADLOCK FALSE
