SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  Only = {"name", "filename", "qname", "qfile", "order", "extra"}
INVARIANTS Law
CHECK_DEADLOCK FALSE
