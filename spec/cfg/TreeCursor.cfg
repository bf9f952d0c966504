INIT Init
NEXT NextModify
VIEW StructView
CONSTANTS
  N = 4
  ValueAugs = FALSE
  U = 7
  Vals = {1}
  Sizes = {0, 5}
  Cursors = {}
INVARIANTS Chain AnyHint AnyCursor
CHECK_DEADLOCK FALSE
