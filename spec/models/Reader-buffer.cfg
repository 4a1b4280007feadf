SPECIFICATION Spec
CONSTANTS
  Alphabet = {13, 10, 45}
  MaxLen = 1
  Pads = {4, 5}
  MaxLen2 = 0
  Cut = FALSE
  MaxErr = 0
  Reads = {1, 99}
  MinBig = 16
  MinNext = 8
  Geometry = TRUE
  Cap0 = 16
  Defects = {}
  Record = FALSE
  HeaderOf <- AbsHeaderOf
INVARIANTS Refines TypeOK

CHECK_DEADLOCK FALSE
