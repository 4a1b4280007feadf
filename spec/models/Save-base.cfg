SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 195, 169}
  MaxLen = 4
  MaxLim = 4
  Texts = {"try", "force", "ignore"}
  MinShow = 2
  MaxErr = 0
  MaxSaves = 1
  Writers = TRUE
  Defects = {}
  Record = FALSE
INVARIANTS Refines InStep TypeOK MemoryBounded DiskBounded
CHECK_DEADLOCK FALSE
