SPECIFICATION Spec
CONSTANTS
  MaxRes = 1
  MaxOps = 4
  MaxFiles = 1
  Defects = {}
  Record = TRUE
INVARIANTS Refines NoLeak Report
CHECK_DEADLOCK FALSE
