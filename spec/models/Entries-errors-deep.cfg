SPECIFICATION Spec
CONSTANTS
  Names = {97, 98}
  MaxLen = 1
  MaxParts = 3
  MaxCount = 3
  MaxSaves = 3
  MaxErr = 2
  Defects = {}
  Record = FALSE
INVARIANTS Refines InStep NothingTwice CountRight
CHECK_DEADLOCK FALSE
