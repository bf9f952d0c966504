INIT Init
NEXT NextModify
VIEW StructView
CONSTANTS
  N = 4
  ValueAugs = TRUE
  U = 7
  Vals = {1}
  Sizes = {0, 5, 7}
  Cursors = {}
  GroupOfKey <- G2
INVARIANTS GroupOK
CHECK_DEADLOCK FALSE
