SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  Only = {"flaw", "name", "filename", "ctype", "qname", "qfile", "order", "extra", "extraAt", "semis", "pcase", "hcase", "colon", "before", "after", "trail", "ctfirst", "headers", "headersAt", "twice"}
INVARIANTS Law Report
CHECK_DEADLOCK FALSE
