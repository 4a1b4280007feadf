SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  Only = {"integ", "flaw", "near", "nearname", "bnd", "tcase", "pcase"}
INVARIANTS Law
CHECK_DEADLOCK FALSE
