INIT Init
NEXT NextModify
VIEW StructView
CONSTANTS
  N = 4
  ValueAugs = TRUE
  U = 6
  Vals = {1, 2}
  Sizes = {0, 5, 6}
  Cursors = {}
  GroupOfKey <- G2
INVARIANTS FindOK
CHECK_DEADLOCK FALSE
