SPECIFICATION Spec
CONSTANTS
  N = 4
  ValueAugs = FALSE
  Threads = {t1, t2}
  Lookups = 2
  U = 14
  SizeChoices = {0, 3, 12}
  Stale = TRUE
SYMMETRY Symm
INVARIANTS Linear HintValid
CHECK_DEADLOCK FALSE
