SPECIFICATION Spec
CONSTANTS
  HeaderOf <- AbsHeaderOf
  Modes = {"lazy", "prepared"}
  Kinds = {72, 82}
  Alphabet = {13}
  MaxData = 1
  MaxFields = 3
  Caps = {3, 30}
  MaxErr = 1
  MaxSoft = 1
  MaxReads = 40
  Shorts = {1}
  Rounds = {1, 2}
  Defects = {}
  Record = FALSE
INVARIANTS Refines TypeOK QuietUntilMeasured NoFalseFailure
CHECK_DEADLOCK FALSE
