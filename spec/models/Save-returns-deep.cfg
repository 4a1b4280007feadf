SPECIFICATION FairSpec
CONSTANTS
  Alphabet = {97, 195, 169}
  MaxLen = 3
  MaxLim = 3
  Texts = {"try", "force", "ignore"}
  MinShow = 2
  MaxErr = 1
  MaxSaves = 1
  Writers = TRUE
  Defects = {}
  Record = FALSE
PROPERTY Returns
CHECK_DEADLOCK FALSE
