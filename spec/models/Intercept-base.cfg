SPECIFICATION Spec
CONSTANTS
  Names = {97, 98}
  MaxLen = 2
  MaxParts = 2
  MaxSize = 2
  MaxCount = 3
  Mem = 1
  MaxErr = 1
  Defects = {}
  Record = FALSE
INVARIANTS Refines Limited CountRight
CHECK_DEADLOCK FALSE
