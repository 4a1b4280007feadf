INIT WalkInit
NEXT WalkNext
CONSTANTS
  HeaderOf <- AbsHeaderOf
  Modes = {"eager", "sized", "lazy", "prepared"}
  Kinds = {72, 82, 83, 70}
  Alphabet = {120}
  MaxData = 3
  MaxFields = 3
  Caps = {1, 2, 5, 9, 20, 60}
  MaxErr = 1
  MaxSoft = 4
  MaxReads = 80
  Shorts = {1, 2, 4}
  Rounds = {1, 2}
  Defects = {}
  Record = TRUE
  RecLen = 80
INVARIANTS Refines TypeOK QuietUntilMeasured NoFalseFailure Report
CHECK_DEADLOCK FALSE
