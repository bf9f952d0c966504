SPECIFICATION Spec
CONSTANTS
  N = 4
  U = 12
  Kids = 3
  Early = TRUE
INVARIANTS WellFormed Intact NeverWritten Released
CHECK_DEADLOCK FALSE
