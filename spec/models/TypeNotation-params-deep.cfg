SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  Only = {"integ", "flaw", "bnd", "quoted", "before", "before2", "after", "space", "blank", "semi"}
INVARIANTS Law
CHECK_DEADLOCK FALSE
