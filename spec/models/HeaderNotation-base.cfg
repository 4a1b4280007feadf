SPECIFICATION Spec
CONSTANTS
  Wide = FALSE
  Only = {"filename", "qname", "extra", "extraAt", "semis", "before", "after", "twice", "pcase"}
INVARIANTS Law
CHECK_DEADLOCK FALSE
