SPECIFICATION FairSpec
CONSTANTS
  Names = {97, 98}
  MaxLen = 1
  MaxParts = 2
  MaxCount = 3
  MaxSaves = 2
  MaxErr = 1
  Defects = {}
  Record = FALSE
PROPERTY Returns
CHECK_DEADLOCK FALSE
