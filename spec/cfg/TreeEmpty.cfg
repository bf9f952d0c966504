INIT Init
NEXT NextEmpty
VIEW StructView
CONSTANTS
  N = 4
  ValueAugs = TRUE
  U = 7
  Vals = {1}
  Sizes = {0, 3, 5, 6, 7}
  Cursors = {}
INVARIANTS Balanced Chain Augs Length Emptied AnyHint
PROPERTY Implements
CHECK_DEADLOCK FALSE
