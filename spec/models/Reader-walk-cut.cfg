SPECIFICATION Spec
CONSTANTS
  Alphabet = {13, 10, 45, 66, 120}
  MaxLen = 1
  Pads = {0, 2, 5}
  MaxLen2 = 1
  Cut = TRUE
  MaxErr = 1
  Reads = {1, 2, 3, 99}
  MinBig = 12
  MinNext = 8
  Geometry = FALSE
  Cap0 = 16
  Defects = {}
  Record = TRUE
  RecLen = 24
  HeaderOf <- AbsHeaderOf
INVARIANTS Refines TypeOK Report
ACTION_CONSTRAINT Going
CHECK_DEADLOCK FALSE
