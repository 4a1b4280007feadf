SPECIFICATION Spec
CONSTANTS
  MaxRes = 3
  MaxOps = 9
  MaxFiles = 2
  Defects = {}
  Record = FALSE
INVARIANTS Refines NoLeak
CHECK_DEADLOCK FALSE
