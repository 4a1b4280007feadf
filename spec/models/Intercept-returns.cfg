SPECIFICATION FairSpec
CONSTANTS
  Names = {97, 98}
  MaxLen = 1
  MaxParts = 2
  MaxSize = 1
  MaxCount = 3
  Mem = 1
  MaxErr = 1
  Defects = {}
  Record = FALSE
PROPERTIES Returns
CHECK_DEADLOCK FALSE
