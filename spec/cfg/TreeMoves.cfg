INIT Init
NEXT Next
VIEW CursorView
CONSTANTS
  N = 4
  ValueAugs = FALSE
  U = 5
  Vals = {1}
  Sizes = {0, 5}
  Cursors = {1}
INVARIANTS Balanced Chain
PROPERTY Implements
CHECK_DEADLOCK FALSE
