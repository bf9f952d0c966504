INIT Init
NEXT NextModify
VIEW StructView
CONSTANTS
  N = 4
  ValueAugs = TRUE
  U = 5
  Vals = {1, 2}
  Sizes = {0, 5}
  Cursors = {}
INVARIANTS Balanced Chain Augs Length Emptied
PROPERTY Implements
CHECK_DEADLOCK FALSE
