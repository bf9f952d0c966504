INIT Init
NEXT NextEmpty
VIEW StructView
CONSTANTS
  N = 4
  ValueAugs = TRUE
  U = 9
  Vals = {1}
  Sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
  Cursors = {}
INVARIANTS Balanced Chain Augs Length Emptied AnyHint
PROPERTY Implements
CHECK_DEADLOCK FALSE
