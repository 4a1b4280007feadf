SPECIFICATION Spec
CONSTANTS
  MaxRes = 2
  MaxOps = 6
  MaxFiles = 2
  Defects = {}
  Record = FALSE
INVARIANTS Refines NoLeak
CHECK_DEADLOCK FALSE
