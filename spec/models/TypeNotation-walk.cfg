SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  Only = {"integ", "bnd", "quoted", "tcase", "pcase", "before", "before2", "after", "space", "blank", "semi"}
INVARIANTS Law Report
CHECK_DEADLOCK FALSE
