INIT WalkInit
NEXT Next
CONSTANTS
  Alphabet = {97, 226, 130}
  MaxLen = 6
  MaxLim = 6
  Texts = {"try", "force", "ignore"}
  MinShow = 3
  MaxErr = 0
  MaxSaves = 3
  Writers = TRUE
  Defects = {}
  Record = TRUE
  RecLen = 40
INVARIANTS Refines InStep TypeOK MemoryBounded DiskBounded Report
CHECK_DEADLOCK FALSE
