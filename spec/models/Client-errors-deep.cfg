SPECIFICATION Spec
CONSTANTS
  HeaderOf <- AbsHeaderOf
  Modes = {"eager", "sized", "lazy", "prepared"}
  Kinds = {72, 82, 70}
  Alphabet = {13}
  MaxData = 2
  MaxFields = 2
  Caps = {1, 3, 30}
  MaxErr = 2
  MaxSoft = 1
  MaxReads = 50
  Shorts = {1}
  Rounds = {}
  Defects = {}
  Record = FALSE
INVARIANTS Refines TypeOK QuietUntilMeasured NoFalseFailure
CHECK_DEADLOCK FALSE
