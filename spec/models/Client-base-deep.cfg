SPECIFICATION Spec
CONSTANTS
  HeaderOf <- AbsHeaderOf
  Modes = {"eager", "sized", "lazy", "prepared"}
  Kinds = {72, 82, 83, 70}
  Alphabet = {13, 45}
  MaxData = 2
  MaxFields = 2
  Caps = {1, 2, 5, 30}
  MaxErr = 0
  MaxSoft = 1
  MaxReads = 50
  Shorts = {1, 2}
  Rounds = {}
  Defects = {}
  Record = FALSE
INVARIANTS Refines TypeOK QuietUntilMeasured NoFalseFailure
CHECK_DEADLOCK FALSE
