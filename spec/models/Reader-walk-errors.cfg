SPECIFICATION Spec
CONSTANTS
  Alphabet = {13, 10, 45, 66, 120}
  MaxLen = 3
  Pads = {0, 3}
  MaxLen2 = 1
  Cut = FALSE
  MaxErr = 2
  Reads = {1, 2, 3, 99}
  MinBig = 12
  MinNext = 8
  Geometry = FALSE
  Cap0 = 16
  Defects = {}
  Record = TRUE
  RecLen = 24
  HeaderOf <- AbsHeaderOf
INVARIANTS Refines TypeOK Report
ACTION_CONSTRAINT Going
CHECK_DEADLOCK FALSE
