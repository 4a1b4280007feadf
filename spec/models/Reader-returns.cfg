SPECIFICATION FairSpec
CONSTANTS
  Alphabet = {13, 45}
  MaxLen = 0
  Pads = {0, 3}
  MaxLen2 = 0
  Cut = TRUE
  MaxErr = 1
  Reads = {1}
  MinBig = 12
  MinNext = 8
  Geometry = FALSE
  Cap0 = 16
  Defects = {}
  Record = FALSE
  HeaderOf <- AbsHeaderOf
INVARIANTS Refines TypeOK
PROPERTY Returns
CHECK_DEADLOCK FALSE
