INIT Init
NEXT NextModify
VIEW StructView
CONSTANTS
  N = 4
  ValueAugs = TRUE
  U = 10
  Vals = {1}
  Sizes = {0, 5, 7, 10}
  Cursors = {}
  GroupOfKey <- G2
INVARIANTS IndexOK
CHECK_DEADLOCK FALSE
