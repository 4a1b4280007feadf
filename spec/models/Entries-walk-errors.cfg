INIT WalkInit
NEXT Next
CONSTANTS
  Names = {97, 98}
  MaxLen = 2
  MaxParts = 4
  MaxCount = 5
  MaxSaves = 4
  MaxErr = 2
  Defects = {}
  Record = TRUE
INVARIANTS Refines InStep NothingTwice CountRight Report
CHECK_DEADLOCK FALSE
