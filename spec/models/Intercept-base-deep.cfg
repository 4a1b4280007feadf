SPECIFICATION Spec
CONSTANTS
  Names = {97, 98}
  MaxLen = 3
  MaxParts = 3
  MaxSize = 3
  MaxCount = 4
  Mem = 1
  MaxErr = 1
  Defects = {}
  Record = FALSE
INVARIANTS Refines Limited CountRight
CHECK_DEADLOCK FALSE
