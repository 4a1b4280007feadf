SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 195, 169}
  MaxLen = 4
  MaxLim = 2
  Texts = {"try", "force", "ignore"}
  MinShow = 2
  MaxErr = 2
  MaxSaves = 2
  Writers = TRUE
  Defects = {}
  Record = FALSE
INVARIANTS Refines InStep TypeOK MemoryBounded DiskBounded
CHECK_DEADLOCK FALSE
