SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  Only = {"name", "filename", "ctype", "qname", "qfile", "order", "extra", "semis", "pcase"}
INVARIANTS Law
CHECK_DEADLOCK FALSE
