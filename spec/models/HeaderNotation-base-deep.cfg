SPECIFICATION Spec
CONSTANTS
  Wide = FALSE
  Only = {"filename", "ctype", "qname", "order", "extra", "extraAt", "semis", "before", "after", "ctfirst", "headers", "twice"}
INVARIANTS Law
CHECK_DEADLOCK FALSE
