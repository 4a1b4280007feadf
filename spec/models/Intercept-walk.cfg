INIT WalkInit
NEXT Next
CONSTANTS
  Names = {97, 98}
  MaxLen = 2
  MaxParts = 3
  MaxSize = 2
  MaxCount = 3
  Mem = 1
  MaxErr = 1
  Defects = {}
  Record = TRUE
INVARIANTS Refines Limited CountRight Report
CHECK_DEADLOCK FALSE
