SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  Only = {"flaw", "order", "headers", "headersAt", "extra", "ctype"}
INVARIANTS Law
CHECK_DEADLOCK FALSE
