INIT Init
NEXT NextModify
VIEW StructView
CONSTANTS
  N = 8
  ValueAugs = TRUE
  U = 13
  Vals = {1}
  Sizes = {0}
  Cursors = {}
INVARIANTS Balanced Chain Augs Length
PROPERTY Implements
CHECK_DEADLOCK FALSE
