INIT Init
NEXT Next
VIEW HintView
CONSTANTS
  N = 4
  ValueAugs = FALSE
  U = 7
  Vals = {1, 2}
  Sizes = {0}
  Cursors = {}
INVARIANTS Balanced Chain Augs Length Emptied AnyHint
PROPERTY Implements
CHECK_DEADLOCK FALSE
