SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 195, 169}
  MaxLen = 3
  MaxLim = 2
  Texts = {"try", "force", "ignore"}
  MinShow = 2
  MaxErr = 1
  MaxSaves = 2
  Writers = TRUE
  Defects = {}
  Record = FALSE
INVARIANTS Refines InStep TypeOK MemoryBounded DiskBounded
CHECK_DEADLOCK FALSE
