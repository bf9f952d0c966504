INIT Init
NEXT NextModify
VIEW StructView
CONSTANTS
  N = 4
  ValueAugs = TRUE
  U = 8
  Vals = {1}
  Sizes = {0}
  Cursors = {}
INVARIANTS Balanced Chain Augs Length
PROPERTY Implements
CHECK_DEADLOCK FALSE
