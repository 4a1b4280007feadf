SPECIFICATION Spec
CONSTANTS
  Alphabet = {13, 10, 45, 66}
  MaxLen = 4
  Pads = {0, 4}
  MaxLen2 = 0
  Cut = FALSE
  MaxErr = 0
  Reads = {1, 99}
  MinBig = 12
  MinNext = 8
  Geometry = FALSE
  Cap0 = 16
  Defects = {}
  Record = FALSE
  HeaderOf <- AbsHeaderOf
INVARIANTS Refines TypeOK

CHECK_DEADLOCK FALSE
