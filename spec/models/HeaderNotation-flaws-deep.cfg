SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  Only = {"flaw", "order", "headers", "headersAt", "extra", "extraAt", "ctype", "ctfirst"}
INVARIANTS Law
CHECK_DEADLOCK FALSE
