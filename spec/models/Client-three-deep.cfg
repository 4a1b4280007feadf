SPECIFICATION Spec
CONSTANTS
  HeaderOf <- AbsHeaderOf
  Modes = {"eager", "sized", "lazy", "prepared"}
  Kinds = {72, 82, 70}
  Alphabet = {13}
  MaxData = 1
  MaxFields = 3
  Caps = {2, 7}
  MaxErr = 0
  MaxSoft = 1
  MaxReads = 60
  Shorts = {1}
  Rounds = {}
  Defects = {}
  Record = FALSE
INVARIANTS Refines TypeOK QuietUntilMeasured NoFalseFailure
CHECK_DEADLOCK FALSE
