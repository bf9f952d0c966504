SPECIFICATION Spec
CONSTANTS
  N = 4
  U = 9
  Kids = 3
  Early = TRUE
INVARIANTS WellFormed Intact NeverWritten Released
CHECK_DEADLOCK FALSE
