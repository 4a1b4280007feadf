INIT Init
NEXT WalkNext
CONSTANTS
  MaxRes = 3
  MaxOps = 8
  MaxFiles = 3
  Defects = {}
  Record = TRUE
INVARIANTS Refines NoLeak Report
CHECK_DEADLOCK FALSE
