SPECIFICATION Spec
CONSTANTS
  HeaderOf <- AbsHeaderOf
  Modes = {"lazy", "prepared"}
  Kinds = {72, 82, 70}
  Alphabet = {13}
  MaxData = 1
  MaxFields = 2
  Caps = {3, 30}
  MaxErr = 0
  MaxSoft = 1
  MaxReads = 40
  Shorts = {1}
  Rounds = {1}
  Defects = {}
  Record = FALSE
INVARIANTS Refines TypeOK QuietUntilMeasured NoFalseFailure
CHECK_DEADLOCK FALSE
