SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  Only = {"name", "filename", "ctype", "qname", "qfile", "order", "extra", "extraAt", "semis", "pcase", "hcase", "colon", "before", "after", "trail", "ctfirst", "headers", "headersAt", "twice"}
INVARIANTS Law Report
CHECK_DEADLOCK FALSE
