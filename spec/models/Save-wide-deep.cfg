SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 226, 130}
  MaxLen = 6
  MaxLim = 5
  Texts = {"try", "force", "ignore"}
  MinShow = 3
  MaxErr = 0
  MaxSaves = 1
  Writers = TRUE
  Defects = {}
  Record = FALSE
INVARIANTS Refines InStep TypeOK MemoryBounded DiskBounded
CHECK_DEADLOCK FALSE
