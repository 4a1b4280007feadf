SPECIFICATION FairSpec
CONSTANTS
  HeaderOf <- AbsHeaderOf
  Modes = {"eager", "sized", "lazy", "prepared"}
  Kinds = {72, 82}
  Alphabet = {13}
  MaxData = 1
  MaxFields = 1
  Caps = {1, 4}
  MaxErr = 1
  MaxSoft = 1
  MaxReads = 20
  Shorts = {1}
  Rounds = {}
  Defects = {}
  Record = FALSE
PROPERTY Returns
CHECK_DEADLOCK FALSE
